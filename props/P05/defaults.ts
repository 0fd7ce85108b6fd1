import { contract } from "vf";
import { NestedFieldsRedactor } from "repo:redaction/src/generic/redact-nested-fields/redact-nested-fields";
import { redactString } from "repo:redaction/src/generic/redact-string";

const MASKED = ["first_name", "last_name", "full_name", "ullName", "irstname", "astname", "url", "uri", "link", "href", "Url", "Uri", "Link", "Href",
  "addressLine1", "address_line_1", "homeAddress", "home_address", "postalAddress", "postal_address", "phone", "Phone", "phone_number", "ssn", "SSN", "username", "Username", "user_name",
  "credit_card", "creditCard", "credit_card_number", "creditCardNumber", "cvc", "CVC", "text", "description", "summary", "title", "Text", "Description", "Summary", "Title"];
const MASKED_EXACT = ["name", "address"];
const KEPT = ["Id", "ID", "_id", "uuid", "UUID", "uuidv4", "UUIDv4", "guid", "GUID", "Guid", "Type", "_type", "TYPE", "Kind", "_kind", "ed_at", "edAt"];
const KEPT_EXACT = ["id", "type", "kind"];
const BIRTH = ["dob", "DOB", "date_of_birth", "dateOfBirth", "DateOfBirth", "birthDate", "BirthDate", "birth_date"];
const make = (g) => NestedFieldsRedactor.builderWithDefaults().createRedactorLax({ strings: {}, defaultStringRedactor: (s) => g.uf("def", "string", s) });
const run = (g, key, s) => g.replace(redactString, (x) => g.uf("redactString", "string", x), () => {
  const redact = make(g);
  return Object.values(redact({ [key]: s }))[0];
});
const masked = (g, s) => (g.isSymbolic() ? g.uf("redactString", "string", s) : redactString(s));

contract("every key with a sensitive ending is masked", {}, (g) => {
  const s = g.string("s", ["a b", "a@b.com", "http://a/b"]), prefix = g.string("prefix", ["", "x_", "F", "f", "user"]), end = g.oneOf("ending", MASKED);
  g.ensure("masked", run(g, prefix + end, s) === masked(g, s));
});
contract("every key with an identifying ending is kept", {}, (g) => {
  const s = g.string("s", ["a b", "a@b.com"]), prefix = g.string("prefix", ["", "x_", "F", "f", "user"]), end = g.oneOf("ending", KEPT);
  g.ensure("kept", run(g, prefix + end, s) === s);
});
contract("exact keys", {}, (g) => {
  const s = g.string("s", ["a b", "a@b.com"]), key = g.oneOf("key", [...MASKED_EXACT, ...KEPT_EXACT]);
  g.ensure("policy", run(g, key, s) === (MASKED_EXACT.includes(key) ? masked(g, s) : s));
});
contract("every other key gets the default redactor", {}, (g) => {
  const s = g.string("s", ["a b", "a@b.com"]), key = g.string("key", ["nickname", "street", "idx", "names", "constructor", "types", "x"]);
  g.assume(key !== "" && !MASKED_EXACT.includes(key) && !KEPT_EXACT.includes(key));
  for (const e of MASKED) g.assume(!key.endsWith(e));
  for (const e of KEPT) g.assume(!key.endsWith(e));
  g.ensure("default", run(g, key, s) === g.uf("def", "string", s));
});
contract("dates of birth become the epoch", {}, (g) => {
  const prefix = g.string("prefix", ["", "x_", "user"]), end = g.oneOf("ending", BIRTH);
  const out = Object.values(make(g)({ [prefix + end]: new Date(g.int("t", 0, 4102444800000)) }))[0];
  g.ensure("epoch", out.getTime() === 0);
});
