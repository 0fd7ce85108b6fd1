import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
R="packages/redaction/src/"
N=R+"generic/redact-nested-fields/redact-nested-fields.ts"
prop("P03","Nested redaction reaches every field and every list element",
"Redacting a nested value by field name visits every field of every object under that field's own name and every element of every list under the name of the list, at any depth; the result has the same fields in the same order and the same list lengths as the input. Values that hold no text (null, undefined, booleans, numbers without a redactor of their own) are kept, and the input is never modified.",
["inputs"],"every JSON value: any nesting depth (by induction over the structure), any number of fields, any field names, any list length",
"The tests redact a few literal objects; whether a field nested anywhere, or a value standing after an unchanged one, is reached is a statement about all shapes.",
[N],["createRedactor","redactFn"],"Containers are proved by structural induction: the recursive calls are replaced by an arbitrary outcome (child kept or replaced) and every element and field is compared for unbounded containers; the no-mutation clause is checked on a fixed two-level shape with arbitrary contents (bounded).")
prop("P04","A field is redacted by its explicit redactor, else its pattern, else the default",
"In nested redaction a text field with an explicitly registered redactor for exactly its name is passed to that redactor; otherwise, if its name equals or ends with a registered key pattern, to that pattern's redactor; otherwise to the default text redactor when one was given, whether to the builder (at any point of the chain) or at creation; otherwise it stays. The same holds for dates with date redactors and date patterns, and numbers are touched only by a redactor registered for their name; names that every object inherits (such as constructor) are ordinary names.",
["inputs","configurations"],"every field name and every text, for registrations that mix explicit names, exact keys, endings of one and several characters and nested pattern sets, through all three ways of creating a redactor",
"Field names are unbounded: tests try a few names, while the lookup uses an index by the last two characters that must agree with a plain match for every name.",
[N,R+"generic/redact-nested-fields/pattern-based-redactors.ts"],["createRedactor","findApplicablePatternBasedStringRedactor","findApplicablePatternBasedRedactor","redactKeysEndingWith@"+R+"generic/redact-nested-fields/pattern-based-redactors.ts"],"Proved for every field name and text over representative registrations.")
prop("P05","The recommended redaction defaults mask every sensitive field name",
"With the recommended defaults, every text field whose name is name or address, or ends with one of the documented name, link, address, phone, social-security, card, user-name or free-text endings, is masked; every field whose name is id, type or kind or ends with one of the documented identifier, type or timestamp endings is kept; every other field gets the default redactor. Dates under a name ending in one of the date-of-birth endings become the Unix epoch.",
["inputs"],"every field name: any prefix followed by each documented ending, and every name matching none of them; every text",
"Tests check a few names of a few families; the policy is a table of over sixty endings and must hold for each with every prefix.",
[R+"generic/redact-nested-fields/common-redactors.ts",N],["ALL_DEFAULT_STRING_REDACTORS@"+R+"generic/redact-nested-fields/common-redactors.ts","createRedactor"],"Proved for every prefix and text; the text redactor itself is replaced by its own contract (P02).")
prop("P06","Recursive redaction passes every leaf to the callback for its kind",
"Recursive redaction hands every text, number, boolean and big integer at any place of a nested value to the callback given for its kind, together with the path of keys and list positions that leads to it, and puts the callback's result in its place; kinds without a callback are kept and a value in which nothing changed is returned as it is. If the callback for objects or lists returns something else, that replaces the whole subtree and its contents are not visited; the input is never modified.",
["inputs"],"lists of any length, objects with any fields, and nested values of three levels with arbitrary leaves",
"Tests use two or three literal objects; paths and completeness are claims about all positions.",
[R+"generic/redact-recursively.ts"],["redactRecursively"],"Lists and objects of any size are proved; deeper nesting is checked for a fixed shape with arbitrary leaves (bounded).")
prop("P07","Cookie masking and header dropping miss no header and touch no other",
"Cookie masking replaces the value of every cookie with one of the given names (ignoring case, wherever it stands and however often it occurs) in every cookie header of a request and every set-cookie header of a response, and leaves all other cookies, headers and parts of the message as they were. Dropping a request header removes every header of that name, ignoring case, and keeps all others in order. Neither is applied again at replay time.",
["inputs"],"any number of headers with any names and values, any cookie text, any list of names",
"Tests use one or two headers; duplicates, unusual spacing and case are a product space.",
[R+"network-requests/redact-cookies.ts",R+"network-requests/drop-request-header.ts"],["redactCookies@"+R+"network-requests/redact-cookies.ts","dropRequestHeader@"+R+"network-requests/drop-request-header.ts"],"Proved for unbounded header lists, names and values.")
prop("P08","A JSON response in scope is recorded only as transformed",
"A response whose request URL is in scope and whose body is valid JSON is recorded with exactly the serialised result of the transform (which is called once, with the parsed data and the response), unless the transform returns its argument; if the body is not valid JSON, it is replaced by a fixed marker when skipping is turned off and left otherwise. Responses out of scope are untouched, the rest of the response is kept, and the outcome for one response never depends on the responses before it, whatever the flags of the scope expression.",
["inputs","histories"],"every body text (including none), every URL, both settings of skipping, and sequences of three responses with plain, global, sticky and case-insensitive expressions",
"Tests use one response each; statefulness across responses and odd bodies are not sampled.",
[R+"network-responses/transform-json-response.ts"],["transformJsonResponse"],"Proved for every text and URL; JSON.parse and JSON.stringify are assumed contracts.")
