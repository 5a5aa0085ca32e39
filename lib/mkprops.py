#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python so that it can be reviewed and edited)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m} for n, m in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

B = "src/blogc/"; M = "src/blogc-make/"; G = "src/blogc-git-receiver/"; R = "src/blogc-runserver/"; C = "src/common/"

prop("C01", "Template rendering is exactly the structured meaning of the template",
 "The output of the compiler is exactly the concatenation, in template order, of the literal text and variable values that lie in active regions: text outside blocks and a page block outside listing mode once; a listing block once per selected source, in their order; a once block exactly once and an empty block only when no source is selected, both in listing mode only; a listing-entry block once for the next supplied listing entry. A conditional contributes exactly one of its two branches, a foreach contributes its body once per item of its list in order, whatever nesting of conditionals, blocks and loops surrounds them. Nothing from a region that is not active ever reaches the output, and a block never sees the variables of a source that another block was rendered for.",
 ["programs", "inputs"], "every accepted template (any nesting of blocks, conditionals with or without else, loops), any number of sources and listing entries, both modes",
 "The renderer is an interpreter with skip loops and nine mutable flags; tests render a few dozen fixed templates, while wrong skipping or leaked state needs particular nestings, block orders and source counts.",
 [B+"renderer.c", B+"template-parser.c", B+"main.c"],
 [("template interpreter", B+"renderer.c blogc_render")], ["output file or standard output of blogc"],
 [("program counter / block / loop position", "where the interpreter is in the template, which source and which loop item it is at"), ("active source", "whose variables are visible")])

prop("C02", "A template is accepted exactly when it is lexically valid and well nested",
 "A template is accepted if and only if every statement and variable reference in it is complete and lexically valid, blocks are not nested and are closed, conditionals and loops are closed in the reverse order in which they were opened and never straddle a block boundary, loops are not nested and every conditional has at most one else. When a template is rejected the program reports an error, exits with a failure status, and produces no output and does not touch an existing output file. Everything outside statements and variable references in an accepted template is literal text, all of it.",
 ["programs", "inputs"], "every byte string given as a template, including ones truncated at any byte",
 "The parser is a 22-state character machine; the tests feed it about twenty fixed invalid templates, not every interleaving of openings and closings or every truncation point.",
 [B+"template-parser.c", B+"main.c", C+"error.c"],
 [("template lexer and nesting checks", B+"template-parser.c blogc_template_parse")], ["exit status, standard error, output of blogc"])

prop("C03", "Whitespace cleaners strip exactly the adjacent whitespace",
 "A whitespace cleaner at the start of a statement removes all whitespace at the end of the literal text immediately before that statement, and a whitespace cleaner at the end of a statement removes all whitespace at the beginning of the literal text immediately after it. No other byte of the template's text is removed or altered, whether or not the statement's region is active.",
 ["programs", "inputs"], "every placement of cleaners on every statement kind, with any text, statement or variable reference next to it",
 "Tests use cleaners on a handful of templates where text always surrounds the statement; adjacency to variables, other statements, empty text and end of file is not sampled.",
 [B+"template-parser.c", C+"utils.c"],
 [("whitespace cleaner", B+"template-parser.c"), ("strip helpers", C+"utils.c bc_str_lstrip, bc_str_rstrip")], ["output of blogc"])

prop("C04", "Variable references resolve by one fixed rule everywhere",
 "A reference in a template, condition or loop, or asked for on the command line, resolves to the current source's value if a source is current and defines it, else to the global value, else to nothing, and an undefined reference renders as nothing and makes every comparison false. A name that exists is used verbatim; otherwise a numeric suffix truncates the value to that many bytes and the formatted suffix formats date values with the configured date format (other values unchanged), also for the loop item and for the value associated with it. Comparisons are byte-wise on the two resolved strings, with the six operators having their usual meaning.",
 ["inputs", "configurations"], "all names with any suffix combination, all definitions at either level, all operators and operands",
 "Name decomposition, precedence and comparison combine; the tests fix one name per feature and never cross them.",
 [B+"renderer.c", B+"datetime-parser.c", B+"funcvars.c", C+"utils.c"],
 [("variable lookup", B+"renderer.c blogc_get_variable"), ("suffix handling", B+"renderer.c blogc_format_variable"), ("loop value", B+"renderer.c foreach_value_variable")], ["output of blogc, -p"])

prop("C05", "Listing selection filters, orders and paginates exactly",
 "In any mode the sources that are rendered are exactly those carrying the requested tag, in the requested order (given order, its reverse, or by date newest first or oldest first with ties kept in order), restricted to the requested page. Over all pages of a listing every selected source appears exactly once and in order, and the exported current, previous, next, first and last page numbers and the first and last date and file name describe exactly that page. A set of sources in which only some have a date, or sorting with a missing or invalid date, is an error.",
 ["inputs", "configurations", "histories"], "all source sets, tags, dates, page sizes and page numbers, all combinations of filter settings",
 "The tests load two or three sources with one setting at a time; combinations, ties, boundary pages, zero and invalid page settings are not covered.",
 [B+"loader.c", C+"sort.c", B+"datetime-parser.c"],
 [("filter/sort/paginate", B+"loader.c blogc_source_parse_from_files"), ("merge sort", C+"sort.c bc_slist_sort")], ["output of blogc -l, exported variables"])

prop("C06", "Source files are split into variables and content without loss",
 "A source file is accepted if and only if it consists of header lines of the form KEY: value with valid, non-reserved keys, optionally followed by a dashed separator line and content, of which there is something (header or separator), and a maximum depth that it gives for its table of contents is a number where it is used; each header variable then has exactly the rest of its line, trimmed, as value (the last definition of a key wins). Everything after the separator is the content, available raw and rendered; the excerpt is the rendered content up to the separator line of dots (all of it without one), and first header, description and table of contents are derived from the content unless the header defines the value itself. The file name variable is always the file's base name without its last extension.",
 ["inputs"], "every source file text, with any line endings and any truncation",
 "Character-level parser; tests use a few well-formed files and a dozen malformed ones.",
 [B+"source-parser.c", B+"loader.c"],
 [("source parser", B+"source-parser.c blogc_source_parse"), ("file name", B+"loader.c blogc_get_filename")], ["-p KEY and output of blogc"])

prop("C07", "Content blocks are recognised and nested as documented, losslessly",
 "Content is divided into blocks at blank lines, and each block is rendered as what its shape says: header, raw HTML, blockquote, code, horizontal rule, unordered or ordered list, or else a paragraph. Every line of a non-blank block reaches the output exactly once, in order, in the element of that block, and blockquotes are rendered by the same rules recursively. The result does not depend on whether lines end in LF or CR LF, beyond the line endings that appear in the output.",
 ["inputs"], "every text, in particular every sequence of block-opening lines, with and without a final newline",
 "The block parser is a 25-state machine with several fallback transitions (a list or quote that stops being one becomes a paragraph); tests give each block kind a few examples.",
 [B+"content-parser.c"], [("block parser", B+"content-parser.c blogc_content_parse")], ["CONTENT variable in output of blogc"])

prop("C08", "Inline markup nests properly and everything else is escaped literal text",
 "Within text, emphasis, strong, code, links and images are rendered exactly where complete, properly delimited markup occurs, and their HTML elements are always balanced and properly nested. Every other character appears literally in order, with HTML-special characters escaped in text and code; addresses and alternative texts are taken verbatim, and a backslash makes the next character literal (and is itself dropped). Incomplete or invalid markup is shown as the text it is, never dropped.",
 ["inputs"], "every line of text, in particular every sequence of delimiters, escapes and brackets, with any truncation",
 "Recursive inline state machine with undo of incomplete constructs; tests cover around a hundred fixed strings.",
 [B+"content-parser.c"], [("inline parser", B+"content-parser.c blogc_content_parse_inline"), ("escaping", B+"content-parser.c htmlentities")], ["CONTENT variable in output of blogc"])

prop("C09", "The table of contents mirrors the headers of the content",
 "The table of contents lists exactly the headers of the content (those inside blockquotes are not its own) whose depth, counted from the shallowest header present, is within the configured maximum, in document order, nested by level with balanced list elements. Every entry links to an anchor and shows a text identical to those of the corresponding header in the rendered content. A content without headers, or a maximum depth of zero, gives no table of contents.",
 ["inputs", "configurations"], "all header sequences and all maximum depths",
 "Tests exercise three header sequences; nesting bookkeeping depends on the history of levels.",
 [B+"toctree.c", B+"content-parser.c", B+"source-parser.c"],
 [("toctree", B+"toctree.c blogc_toctree_render"), ("header slug", B+"content-parser.c blogc_slugify")], ["TOCTREE and CONTENT variables"])

prop("C10", "Configuration files are parsed exactly as written",
 "A settings file is accepted if and only if it is a sequence of sections with non-empty names, key = value lines, list items and comments as documented; every key of a section then has its trimmed (and, if quoted, unescaped) value with the last definition winning, and every list has its items in order; a section that appears again starts anew. No section, key or item is lost, merged or invented, also at the end of a file without a final newline. Any other file is rejected with an error and nothing is built from it.",
 ["inputs", "configurations"], "every settings file text, with any line endings, quoting, escaping and truncation",
 "Character-level parser shared by two programs; tests parse a few fixed files.",
 [C+"config-parser.c", M+"settings.c", G+"settings.c"],
 [("INI parser", C+"config-parser.c bc_config_parse"), ("settings", M+"settings.c settings_parse")], ["commands that blogc-make runs"])

prop("C11", "The compiler's command line and exit status contract",
 "Options, their values (attached or separate), source arguments and a file list on standard input are interpreted alike wherever they appear on the command line: definitions apply to the whole run with the last one for a name winning, source arguments come first and the file list follows in its order without comments, blank lines and surrounding blanks (an option whose value is missing at the end of the command line counts as not given). Exit status is zero exactly when the requested page, variable value, help or version was produced completely. Invalid arguments, missing or surplus sources, unreadable or invalid inputs, undefined requested variables and unwritable outputs give a non-zero status, a message on standard error, and no page.",
 ["inputs", "configurations", "fault_sequences"], "all argument vectors and file lists, including repeated, attached, missing and invalid values",
 "Script tests use about ten command lines.",
 [B+"main.c", B+"filelist-parser.c", C+"stdin.c"],
 [("argument loop", B+"main.c main"), ("file list", B+"filelist-parser.c blogc_filelist_parse")], ["exit status, standard output and error, output file"])

prop("C12", "A site build runs exactly the compilations its configuration defines",
 "For any configuration, building produces exactly the documented set of outputs at the configured paths (index, feeds, pages of listings per page and per tag, posts, tags, pages, copies), each from exactly the configured template, sources, listing entry and variables, and nothing else. Rules that the configuration does not enable produce nothing, and naming rules on the command line builds exactly those rules. Number of listing pages, post order and per-page settings follow the configuration for every value of them.",
 ["configurations"], "all configurations over posts, pages, copies, tags, listing entries, ordering, pagination, paths and prefixes",
 "Script tests build two or three sample sites; tests of settings check parsing only.",
 [M+"rules.c", M+"settings.c", M+"ctx.c", M+"atom.c", M+"exec.c"],
 [("rules", M+"rules.c rules"), ("command construction", M+"exec.c bm_exec_build_blogc_cmd")], ["child process argv and stdin, output tree"])

prop("C13", "An incremental build rebuilds exactly what is stale",
 "After any history of edits, a build compiles exactly those outputs that are missing or older than one of their inputs (the configuration file, the template, the listing entry, a source), and leaves every other output untouched. A build that succeeds leaves nothing stale, so an immediate second build compiles nothing. If a build is interrupted or fails, the next successful build still completes everything that is stale.",
 ["histories", "crash_points", "fault_sequences"], "all sequences of touching, adding, removing and editing inputs and outputs, builds, failing and interrupted builds",
 "Script tests build from clean, once or twice; no test runs an edit history.",
 [M+"exec.c", M+"rules.c", M+"ctx.c"],
 [("staleness", M+"rules.c bm_rule_need_rebuild"), ("file context", M+"ctx.c bm_filectx_new, bm_filectx_reload")], ["child processes, modification times"],
 [("mtime of every input and output", "what staleness is defined on")])

prop("C14", "Cleaning removes exactly the site's outputs and nothing else",
 "Cleaning deletes every output the current configuration defines (outputs never being inputs of the site as well) and then only directories below the output directory, or the output directory itself, that became empty. Any other file, inside or outside the output directory, and every source, template and the configuration survive, and cleaning what is not there is not an error. A build after a clean gives the same tree as a first build.",
 ["histories", "configurations"], "all sites, output directory locations and spellings, partial builds and foreign files",
 "One script test cleans one freshly built site.",
 [M+"rules.c", M+"exec.c"],
 [("clean rule", M+"rules.c clean_exec"), ("native removal", M+"exec-native.c bm_exec_native_rm, bm_exec_native_is_empty_dir")], ["file tree before and after"])

prop("C15", "Watching keeps the output converging to the current sources",
 "While watching, after any sequence of edits to sources, templates or the configuration the output tree becomes what a build of the final state would make of it, provided that no input changes while it is being compiled. An error in an intermediate state (broken configuration, template or source) does not stop the watcher: once the error is repaired the outputs are brought up to date.",
 ["histories", "schedules", "fault_sequences"], "all edit histories, including ones that pass through broken states",
 "No test runs the watcher over an edit history.",
 [M+"reloader.c", M+"ctx.c", M+"rules.c"],
 [("reload loop", M+"reloader.c bm_reloader_thread"), ("reload", M+"ctx.c bm_ctx_reload")], ["output tree over time, process liveness"])

prop("C16", "Values reach child processes verbatim and are never interpreted",
 "Every file name, path, tag and variable value that a site configuration or a directory name supplies reaches the child programs that use it as exactly one argument or variable with exactly the same bytes. No such value can add, split or drop an argument or have any part of it executed by the shell. (File lists are one name per line, so names of files with line endings or with blanks at either end cannot be expressed in a configuration.)",
 ["inputs", "configurations"], "all values, including ones with blanks, quotes, dollar signs, backquotes, semicolons, newlines, percent signs and backslashes",
 "Tests use well-behaved names; the quoting function is checked on five strings.",
 [C+"utils.c", M+"exec.c", M+"rules.c", M+"atom.c", G+"pre-receive.c"],
 [("shell quoting", C+"utils.c bc_shell_quote"), ("command construction", M+"exec.c bm_exec_build_blogc_cmd")], ["argv and environment recorded by stand-in child programs"])

prop("C17", "Failures are never reported as success and never pass silently",
 "Whenever an input cannot be read, an output cannot be written completely, or a child program fails or dies, the program that was asked for the result ends with a non-zero status, and a build stops there and reports it. Outputs built before the failure are complete, and outputs that were not reached are untouched.",
 ["fault_sequences", "crash_points"], "all single failures: every unreadable input, write failure at every byte of the output, failure or death of every child of a build",
 "Tests run without faults.",
 [B+"main.c", M+"exec.c", M+"exec-native.c", M+"rules.c", C+"file.c"],
 [("output writing", B+"main.c main"), ("child status", M+"exec.c bm_exec_command"), ("copying", M+"exec-native.c bm_exec_native_cp")], ["exit status, output tree"])

prop("C18", "The web server maps each request to the right response and stays in its root",
 "For every request the server answers with the status, content type and body that the file tree under its document root dictates: the file's exact bytes, a redirect to the directory with a slash, the directory's index in the documented precedence, or the documented error status for missing, forbidden, malformed and unsupported requests. Percent-encoding and query strings are handled before the path is resolved. No request, whatever its encoding, dot segments or symbolic links, ever returns bytes of a file outside the document root.",
 ["inputs"], "all request lines and all file trees",
 "Unit tests cover helper functions; no test sends a request.",
 [R+"httpd.c", R+"httpd-utils.c", R+"mime.c"],
 [("request handling", R+"httpd.c handle_request"), ("path decoding", R+"httpd-utils.c br_urldecode, br_hextoi"), ("mime and index", R+"mime.c")], ["raw HTTP responses"])

prop("C19", "Every connection gets its own complete response, under any interleaving",
 "With any number of clients connecting, stalling, sending slowly, aborting and reusing the server in any interleaving, every client that sends a complete request receives exactly the response to its own request, whole and once, as long as fewer clients than the configured number of threads are stalled (a stalled client has not sent its whole request line, or does not take a response that is larger than the buffers). Clients that abort or misbehave affect no other client and do not stop the server. At most the configured number of requests is in progress at a time, clients are served in the order in which they connected as far as there are threads, and the server keeps accepting connections as earlier ones finish.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of accept, thread start, read, write, close and abort over a bounded number of slots",
 "No test runs the server at all.",
 [R+"httpd.c", R+"httpd-utils.c", R+"main.c"],
 [("accept loop and thread slots", R+"httpd.c br_httpd_run"), ("request reading", R+"httpd-utils.c br_readline")], ["raw HTTP responses over concurrent connections"],
 [("thread slots", "which slot is running, finished or unused")])

prop("C20", "The Git shell runs exactly the allowed Git commands on its own repositories",
 "A login command is executed if and only if it is one of the three Git transport commands, with exactly one quoted repository name, and it is then executed on that repository inside the user's repository directory and nowhere else. Anything else is refused with a failure status and executes nothing. Before a push is accepted the repository exists and both of its deployment hooks point at this program, whatever was there before.",
 ["inputs", "histories"], "every command string and every prior state of the repository directory and its hooks",
 "Tests parse about ten command strings; the effects run in a script test on the straight path.",
 [G+"shell.c", G+"shell-command-parser.c", G+"main.c"],
 [("command gate", G+"shell-command-parser.c bgr_shell_command_parse"), ("hook set-up", G+"shell.c bgr_shell")], ["stand-in git programs that record argv, hook links"])

prop("C21", "A deploy never leaves a live site that is not a complete successful build",
 "At every moment the live link points at the complete output of a successful build, or at nothing if there never was one. A push whose build fails at any step, for any reason, leaves the live link and the build it points at unchanged, leaves no partial build or temporary directory behind, and reports failure. A push whose build succeeds makes the live link point at the new build and removes the previous one, and no deploy ever deletes anything outside its own temporary and build directories.",
 ["fault_sequences", "histories", "crash_points"], "all histories of pushes with failure of any step, any prior state of link and builds directory, any repository content",
 "One script test deploys twice on the straight path.",
 [G+"pre-receive.c", G+"settings.c"],
 [("deploy", G+"pre-receive.c bgr_pre_receive_hook"), ("recursive removal", G+"pre-receive.c rmdir_recursive")], ["file tree, live link and exit status after each push"],
 [("live link, builds, temporary directory", "the deploy state machine")])

prop("C22", "The branch that is deployed is chosen by one rule, and mirroring never blocks",
 "Of the references in a push, the deployed one is the branch named master if it is being updated, otherwise main, and a push of anything else, or a deletion, deploys nothing and succeeds. A manual rebuild outside a push rebuilds exactly the revision that is live. After a push the repository is mirrored exactly when a mirror is configured, globally or for that repository, and a failing mirror is reported without failing the push.",
 ["inputs", "histories", "configurations"], "all reference update lists, all configurations, all prior deploys",
 "Unit tests parse a few reference lists; rebuild and mirror settings are untested together.",
 [G+"pre-receive-parser.c", G+"pre-receive.c", G+"post-receive.c", G+"settings.c"],
 [("reference list", G+"pre-receive-parser.c bgr_pre_receive_parse"), ("mirror", G+"post-receive.c bgr_post_receive_hook")], ["revision built, git commands run"])

prop("C23", "Text inputs are read completely, without byte order mark, and must be UTF-8",
 "Every text file (template, source, listing entry, configuration) is read in full whatever its size, with one leading byte order mark ignored. A text file or a definition on the command line that is not well-formed UTF-8, anywhere in it, is rejected with an error and a failure status, and one that is well-formed is never rejected for its encoding.",
 ["inputs"], "all byte sequences (all sequences of up to four bytes around the encoding's boundaries) and all sizes around the buffer boundaries",
 "Table-driven decoder; tests check a dozen sequences and small files.",
 [C+"file.c", C+"utf8.c", C+"utils.c"],
 [("file reading", C+"file.c bc_file_get_contents"), ("UTF-8 automaton", C+"utf8.c bc_utf8_validate"), ("growing string", C+"utils.c bc_string_append_len")], ["exit status and output of blogc"])

prop("C24", "Dates are validated and formatted consistently",
 "A date is valid if and only if it is a year from 1900, month, day and optionally hours, minutes and seconds in the documented order, separators and ranges, cut off only after a complete field. A valid date is formatted according to the configured format as the calendar instant it denotes; an invalid one is shown unchanged with a warning, and is an error when sorting needs it. Sorting order always agrees with the calendar order of the instants.",
 ["inputs"], "all date strings over digits and separators, all numeric formats",
 "Tests check one failing character per position; not ranges, roll-over, or ordering.",
 [B+"datetime-parser.c", B+"renderer.c", B+"loader.c"],
 [("date parser", B+"datetime-parser.c blogc_convert_datetime"), ("formatting", B+"renderer.c blogc_format_date")], ["DATE_FORMATTED in output, order of listing"])

prop("C25", "A site is a function of its settings and files, whatever was built before",
 "After any history of edits, additions, removals, broken and repaired files, lost outputs, cleaning and partial or failed builds (whenever edits advance the clock), a build of all rules succeeds exactly when one from scratch would, and then every output of the site holds exactly the page that the settings, templates, posts, pages and copied files that are there now define, from front matter and markup to listings, pages of listings, feeds and copies. A build that fails leaves every output right, as it was, or absent, and no build touches anything else.",
 ["histories", "inputs", "configurations"], "all sites, all histories of edits and builds",
 "Tests build one site from scratch and look at fragments of its pages; the two programs are never compared with what the documentation says of a whole site.",
 [M+"rules.c", M+"exec.c", M+"settings.c", M+"ctx.c", M+"atom.c", B+"main.c", B+"loader.c", B+"renderer.c", B+"content-parser.c"],
 [("rules", M+"rules.c bm_rule_executor"), ("invocation of blogc", M+"exec.c bm_exec_blogc"), ("rendering", B+"renderer.c blogc_render")], ["every file of the output directory after each build, exit status"],
 [("sources, settings, outputs and their times", "the site and its history")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
