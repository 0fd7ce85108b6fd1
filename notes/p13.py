import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
V="packages/backend-recorder-workerd/src/vite/"
M=V+"met-workerd-trace-mapping/"
prop("P38","Measuring a module's coverage never changes it, and never lies about it",
"A module instrumented for coverage is still a module and does exactly what it did: same results, order, errors, `this`, hoisting, generators, classes and statements ended without semicolons, whatever it begins or ends with. What cannot be read or safely marked is left alone, never guessed. In each request, every marked line that ran in it is reported for it, and no line that did not, also for closures made in another request. Each id is given out once over the whole build and belongs to the lines registered for it under the file's path from the root. Lines are those of the source as written: a position is found through the map of earlier transforms, by the segment that covers it (whatever was asked before and in whatever order the map was written); a position without one, or of another file, is dropped and counted, and a map that does not cover the module leaves it unmarked. Only the server's own modules are touched unless asked otherwise, and an excluded module never is.",
["programs","inputs","histories"],"every module made of the listed statements nested in each other, every position and id, and every listed map, module id and setting",
"The code is whatever a customer builds; a marker in one unforeseen place breaks the build or credits a line to the wrong session. Tests run a few small modules.",
[V+"instrument.ts",V+"index.ts",M+"trace-mapping.ts",M+"binary-search.ts",M+"vlq.ts"],["instrumentModule@"+V+"instrument.ts","meticulousCoverage@"+V+"index.ts","buildLineResolver@"+V+"index.ts","MetTraceMap@"+M+"trace-mapping.ts","traceSegmentIndex@"+M+"binary-search.ts","decode@"+M+"vlq.ts"],"Line ranges, ids and the search of segments are proved for every number (lines of up to 4 segments); what a marked module does is checked on every listed nesting of statements (bounded), by running it; the parser (acorn) is the real one, the text editor (magic-string) a model in the proof and the real one in the search.","exploration")
