import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
O="packages/cli/src/commands/onboard/"
prop("P29","Onboarding writes only inside the project",
"Everything `meticulous onboard` writes or lets be written ends up inside the project's real directory, whatever path is asked for and whatever links the repository contains. An absolute path, an empty one, one leading out through .. (with slashes or backslashes), and any path on which a link stands (broken, inside or outside, at the end or on the way, or planted while directories are made) are refused with an error for the user and nothing is written; any other path is written exactly there, and nothing else changes. The skills installer runs only when none of the places it writes to is or holds a link, which is looked at again afterwards. The workspace is made of the shipped templates and the given context, and what .gitignore held stays. Only real directories of the project are offered or opened as apps, or used as the workspace.",
["inputs","configurations"],"every requested path, and every arrangement of files, directories and links it meets",
"A repository may hold any link at any place; tests seed a few.",
[O+"safe-repo-fs.ts",O+"materialize-workspace.ts",O+"discover-apps.ts"],["resolveSafeWritePath@"+O+"safe-repo-fs.ts","writeFileSafeSync@"+O+"safe-repo-fs.ts","copyFileSafeSync@"+O+"safe-repo-fs.ts","prepareSafeSkillsInstallTargets@"+O+"safe-repo-fs.ts","assertSafeSkillsInstallTargets@"+O+"safe-repo-fs.ts","materializeOnboardWorkspace@"+O+"materialize-workspace.ts","resolveSelectedAppAbsolutePath@"+O+"discover-apps.ts"],"Exhaustive over the listed paths and trees (bounded), for all texts written; the disk is a model with links, compared with the real one by random trials.","exploration")
prop("P30","Onboarding trusts nothing the repository says about our tools",
"After `meticulous onboard` sets up the agents, the entry called Meticulous in .mcp.json, .cursor/mcp.json and .codex/config.toml is exactly the official server, whatever the repository had there: extra or different fields, a text or null, quoted, spaced, escaped, repeated, nested or array TOML tables. An entry is left as it is only when it is already exactly that. Every other server, setting and line stays. A file that is no such configuration, or whose entry cannot be rewritten (set outside a table of its own), is refused with an error for the user and left alone, and the other files are still set up. The skills installer is one exact version fetched from the registry without its scripts, away from the repository, and run by this node from where it was fetched; neither step is handed NODE_OPTIONS, NODE_PATH, npm_config_* or a node_modules/.bin on the PATH, and everything else is; what was fetched is removed, a failure is reported and ends nothing, and links left behind are refused.",
["inputs","configurations","fault_sequences"],"every JSON entry and listed TOML line, environment variable, and outcome of the commands",
"What a hostile repository can write in these files is unbounded; tests pin a few spellings.",
[O+"setup-agent-integrations.ts",O+"codex-mcp.ts"],["ensureProjectMcp","isExactJsonServerConfig","mergeCodexMcp@"+O+"codex-mcp.ts","sanitizeSkillsInstallEnv","installSkills"],"Proved for all texts in JSON entries and variables; TOML is exhaustive over files of two to seven listed lines and PATHs over listed entries (bounded).")
