import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
S="packages/session-filters/src/session-filters.ts"
prop("P09","A session filter is accepted exactly when it is well formed",
"validateSessionFilter accepts a value exactly when its type is the known filter type and its regexes are a list of 1 to 500 texts of 1 to 1000 characters each; the accepted filter holds that type and that same list and nothing else of the input. Everything else is rejected with a reason and without a filter, and never by throwing.",
["inputs"],"every JSON value as the filter, every list length and every element",
"The tests try a few malformed filters; acceptance must match the rule for every list and every element position, including the limits.",
[S],["validateSessionFilter"],"Proved for all JSON values and unbounded lists.")
R="packages/recorder-plugin/src/"
prop("P10","The recorder tag is well formed and escaped whatever its attribute values",
"The script tag carries the recording token, the production flag and the snippet address, then every further attribute whose name is a valid attribute name and whose value is not false, null or undefined, with attribute values escaped so that no quote, angle bracket or bare ampersand of a value survives; an attribute of the same name replaces the default. Options are refused without a token unless the plugin is switched off, and the tag is injected by default exactly outside production.",
["inputs","configurations"],"every token, address, attribute name and attribute value; every combination of the option values",
"Escaping is a statement about every text; the tests escape one or two.",
[R+"core/snippet.ts",R+"core/options.ts",R+"core/should-inject.ts"],["escapeAttributeValue","buildScriptTag","resolveOptions@"+R+"core/options.ts","shouldInject@"+R+"core/should-inject.ts"],"Proved for every text; attribute sets are one arbitrary name and value, plus fixed sets of several names with arbitrary values.")
prop("P11","The recorder is injected once, in the head, by every bundler integration",
"In automatic mode the tag is inserted directly after the first opening head tag, in replace mode the first placeholder script is replaced by the tag itself (taken literally), falling back to the head with a warning; a page with neither is left unchanged with a warning. The vite, webpack, rspack, rsbuild and nuxt integrations apply exactly this to each page when injection is on (by default, outside production builds), leave everything else alone, and rspack and rsbuild never inject a page that already carries the recorder.",
["inputs","configurations"],"every page and tag text; every enabled and inject setting, mode and file name, with and without html plugins",
"Pages are arbitrary text and the integrations combine settings with build modes and hooks; tests cover a handful of pages and a few combinations.",
[R+"core/inject-html.ts",R+"core/rspack-html-hooks.ts",R+"index.ts",R+"rsbuild.ts",R+"nuxt.ts"],["injectIntoHtml","isAlreadyInjected@"+R+"core/rspack-html-hooks.ts","tapHtmlBeforeEmitHooks@"+R+"core/rspack-html-hooks.ts","tapHtmlProcessAssetsFallback@"+R+"core/rspack-html-hooks.ts","unpluginFactory@"+R+"index.ts"],"Proved for every page text, relative to one shared meaning of each regular expression with inner word boundaries (an uninterpreted match function; the concrete run checks it on samples). Bundler objects are stand-ins.")
