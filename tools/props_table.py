SOURCE_COMMITS = ["4515302"]
RS = "seeded deterministic simulation of threads and histories (in-process scheduler), compared with each call alone in a fresh process"
CLI = "seeded deterministic simulation of the command's world (system calls, disk faults, crashes, allocation failures)"

prop("C01", "Concurrent conversions do not influence each other",
     "When several threads of one process convert documents (text, math, with or without macro expansion, through the library or the plugin entry points) or load command specifications at the same time, every call returns exactly what it returns when it is the only call a fresh process ever makes. No interleaving makes a call hang, deadlock or bring the process down, and a call that is interrupted or panics leaves the other threads' calls unaffected.",
     ["schedules", "inputs", "histories"],
     "Every number of threads, every interleaving of their memory accesses, including the first use of lazily created shared data, and every document and specification.",
     "The tests call the library from one thread per test on fixed documents and compare with snapshots; they neither interleave calls on purpose nor look at first use under contention.",
     ["crates/mitex/src/converter.rs", "crates/mitex/src/lib.rs", "crates/mitex-parser/src/parser.rs", "crates/mitex-lexer/src/macro_engine.rs", "crates/mitex-spec/src/lib.rs", "crates/mitex-spec-gen/src/lib.rs", "crates/mitex-wasm/src/lib.rs"],
     [("all state of a conversion is created per call", "crates/mitex/src/converter.rs convert_inner; crates/mitex-parser/src/parser.rs Parser::new_macro"),
      ("default specification created once behind a lazy cell", "crates/mitex-spec-gen/src/lib.rs DEFAULT_SPEC"),
      ("specifications are shared immutably", "crates/mitex-spec/src/lib.rs CommandSpec(Arc<..>)")],
     [("DEFAULT_SPEC", "the specification used when the caller gives none", "crates/mitex-spec-gen/src/lib.rs")],
     ["convert_text", "convert_math", "convert_math_no_macro", "parse", "parse_without_macro", "plugin convert_* and compile_spec"], True)
check("C01", RS, "Seeded search over interleavings of 2 to 6 threads at the granularity of instrumented memory accesses, with stalls, spurious wake-ups and unwinding at arbitrary points; sequentially consistent executions only. Trusts the scheduler runtime and the per-call reference.")

prop("C02", "A conversion does not depend on what the process did before",
     "The result of a conversion is a function of its document and command specification alone: whatever calls the same process made earlier, with other documents, other specifications, failed calls, rejected specifications, and calls interrupted part way, the call returns exactly what it returns as the first call of a fresh process. A macro defined in one document is never visible in another, and the caller's specification governs the call it was passed to and no other.",
     ["histories", "inputs", "fault_sequences"],
     "Every sequence of earlier calls, each of which may succeed, fail, or be interrupted at any point of its execution, followed by any call.",
     "Each test is one call with the default specification; no test calls twice in one process on purpose, and none interrupts a call.",
     ["crates/mitex/src/converter.rs", "crates/mitex-lexer/src/macro_engine.rs", "crates/mitex-lexer/src/stream.rs", "crates/mitex-parser/src/parser.rs", "crates/mitex-spec-gen/src/lib.rs"],
     [("macro table created per call", "crates/mitex-lexer/src/macro_engine.rs MacroEngine::new"),
      ("caller's specification handed to every stage", "crates/mitex/src/converter.rs convert_inner")],
     [("macro environment", "definitions collected while lexing one document", "crates/mitex-lexer/src/macro_engine.rs")],
     ["convert_text", "convert_math", "plugin entry points"], True)
check("C02", RS, "Seeded histories of 4 to 24 calls in one process with calls unwound at any interruption point, damaged specifications and failing calls, each result compared with the same call alone in a fresh process.")

prop("C03", "The outcome does not depend on how the input is buffered",
     "However many tokens the lexer buffers per refill, the parse tree and the converted output of a document are the same, in all modes and with all specifications. No token is lost, duplicated or reordered at a buffer boundary, also when a macro is defined or expanded across it. A document that uses neither macros nor conditionals gives the same with the macro engine between lexer and parser as without.",
     ["schedules", "inputs"],
     "Every sequence of refill sizes, including one token at a time and everything at once, and every document.",
     "The snapshots exercise the shipped page size only, on documents that mostly fit one page, so that boundaries fall in few places.",
     ["crates/mitex-lexer/src/stream.rs", "crates/mitex-lexer/src/lib.rs", "crates/mitex-lexer/src/macro_engine.rs"],
     [("paged token buffer with peeking", "crates/mitex-lexer/src/stream.rs StreamContext::fill_one_page / LexCache"),
      ("macro engine bumps across pages", "crates/mitex-lexer/src/macro_engine.rs")],
     [("token page", "tokens read ahead of the parser", "crates/mitex-lexer/src/stream.rs")],
     ["parse", "parse_without_macro", "convert_*"], True)
check("C03", "seeded deterministic simulation of buffer refills (every refill size is the simulator's choice), outputs compared across refill schedules",
      "Seeded documents up to several hundred constructs under fixed, random and unbounded refill sizes, compared with the shipped pacing.")

prop("C04", "A stored command specification means the same wherever it is loaded",
     "A command specification that was compiled to its stored form and loaded again, at any memory address, in any process, any number of times and by several threads at once, lists the same commands with the same shapes as the one it was made from, and converting with it gives the same output. Storing a loaded specification again loses nothing.",
     ["inputs", "histories", "schedules"],
     "Every specification, every placement of the stored bytes in memory, every number of store and load steps, and every interleaving of threads that share it.",
     "The tests round-trip one fixed specification at whatever address the allocator returns.",
     ["crates/mitex-spec/src/lib.rs", "crates/mitex-spec/src/stream.rs", "crates/mitex-wasm/src/lib.rs", "crates/mitex-spec/src/query.rs"],
     [("archived form with alignment fix-up on load", "crates/mitex-spec/src/stream.rs BytesModuleStream"),
      ("conversion between JSON and in-memory specification", "crates/mitex-spec/src/query.rs")],
     [("stored specification", "archived bytes of a command specification", "crates/mitex-spec/src/lib.rs to_bytes / from_bytes")],
     ["compile_spec", "CommandSpec::from_bytes / to_bytes / items", "plugin convert_*"], True)
check("C04", RS, "Seeded specifications and documents, stored bytes placed at 16 alignments, 1 to 3 threads; compared with the specification that never went through its stored form.")

prop("C05", "A damaged stored specification is rejected or harmless",
     "Loading or converting with a stored specification whose bytes were damaged in storage or transit (flipped bits, truncated, torn between two versions, zeroed ranges, duplicated or appended bytes) either fails cleanly or gives a specification that can be listed, used and stored again, and always the same way for the same bytes. It never crashes the process, never reads outside the bytes, and never changes the outcome of any later call.",
     ["fault_sequences", "inputs", "histories"],
     "Every damage to every stored specification, followed by any further calls in the same process.",
     "No test loads damaged bytes.",
     ["crates/mitex-spec/src/stream.rs", "crates/mitex-spec/src/lib.rs", "crates/mitex-wasm/src/lib.rs"],
     [("bytes are validated before use", "crates/mitex-spec/src/stream.rs BytesModuleStream::new"),
      ("stored form is copied and aligned", "crates/mitex-spec/src/stream.rs AlignedVec")],
     (), ["CommandSpec::from_bytes", "plugin convert_text / convert_math"], True)
check("C05", "seeded deterministic simulation of storage faults on stored specifications within call histories, compared with a fresh process",
      "Six kinds of damage at seeded places; a run also checks that loading twice and storing again agree, and that later undamaged calls are unaffected. Out-of-bounds reads are seen only if they change a result or fault.")

prop("C06", "Compile writes the complete right output or fails visibly",
     "When the command line compile command (any of its stages) reports success, the output file holds exactly what the library gives for the input file's contents, completely, whatever short transfers or interruptions the system calls met. When it cannot do that (an input that cannot be read or converted, a system call or allocation that fails, a full disk) it says so on its error stream and exits nonzero. After the fault is gone, running it again succeeds, whatever the earlier run left behind.",
     ["fault_sequences", "inputs", "crash_points", "configurations"],
     "Every input, every combination of options, every sequence of short, interrupted and failing system calls, disk-full points and allocation failures, and every history of earlier runs.",
     "The tests never run the command.",
     ["crates/mitex-cli/src/main.rs", "crates/mitex-cli/src/lib.rs", "crates/mitex-cli/src/utils.rs"],
     [("errors are returned to main, which reports and exits nonzero", "crates/mitex-cli/src/main.rs main / compile"),
      ("option defaults", "crates/mitex-cli/src/lib.rs process_opts")],
     [("output file", "what the next step of the user's build reads", "file system")],
     ["exit status", "error stream", "output file"], False)
check("C06", CLI, "The real binary behind a system-call boundary; one fault per command at seeded positions plus pacing faults; oracle: the library on the same bytes. Faults the kernel would only show at close or fsync are not simulated beyond what the command calls.")

prop("C07", "Compile touches nothing but its output, and only when it has one",
     "Whatever happens during a compile command (success, failure, or being killed at any point), no file other than the requested output changes, and in particular the input stays intact. The previous output is left as it was until the conversion has succeeded; if the command is interrupted while writing, what is there is the old contents or a prefix of the new.",
     ["crash_points", "fault_sequences", "inputs", "configurations"],
     "Every crash point and fault position, every input and option, every previous contents of the directory.",
     "The tests never run the command, let alone kill it.",
     ["crates/mitex-cli/src/main.rs", "crates/mitex-cli/src/lib.rs"],
     [("the whole result is computed before the output is opened", "crates/mitex-cli/src/main.rs compile"),
      ("default output name differs from the input", "crates/mitex-cli/src/lib.rs process_opts")],
     [("directory contents", "input, previous output, unrelated files", "file system")],
     ["directory contents after each command"], False)
check("C07", CLI, "Kill points before, after and inside every file system operation of seeded histories; whole-directory comparison. Process crash, not power loss: written bytes survive.")

prop("C08", "The command's output is reproducible",
     "The bytes a command writes depend on its arguments and the files it reads only: not on the hash seeds or random bytes the process gets, where its memory is allocated, how the system paces reads and writes, what sizes and times the file system reports, the clock, the directory or name it is started under, its standard input, or unrelated environment variables.",
     ["schedules", "inputs", "configurations"],
     "Every value of those environment choices for every command and input.",
     "The tests never run the command, and one process sees one hash seed.",
     ["crates/mitex-cli/src/main.rs", "crates/mitex-cli/src/lib.rs", "crates/mitex/src/converter.rs", "crates/mitex-spec/src/lib.rs", "crates/mitex-spec/src/query.rs"],
     [("no iteration over unordered maps reaches the output", "crates/mitex/src/converter.rs; crates/mitex-cli/src/main.rs; crates/mitex-spec/src/query.rs")],
     (), ["output files", "output stream", "exit status"], False)
check("C08", CLI, "The same command repeated under seeded random bytes (hash seeds), heap layouts, transfer pacing, reported sizes and times, clocks, starting directories and environments; outputs of all commands compared byte for byte.")

prop("C09", "Specification artifacts are regenerated all together or not at all",
     "When the specification command reports success, all stored artifacts describe exactly the specification the query returned, and agree with each other. When the query cannot be started, fails, is killed or returns something that is not a specification, the command fails and every previously stored artifact is left as it was; after any failure, running it again succeeds.",
     ["fault_sequences", "crash_points", "histories", "inputs"],
     "Every answer and failure of the query process, every failing system call, and every history of earlier runs.",
     "No test runs the command; the artifacts are committed.",
     ["crates/mitex-cli/src/main.rs", "crates/mitex-spec/src/lib.rs", "crates/mitex-spec/src/query.rs"],
     [("query result is checked and decoded before anything is written", "crates/mitex-cli/src/main.rs generate")],
     [("artifacts", "binary, JSON and listing forms of the specification", "target/mitex-artifacts/spec")],
     ["exit status", "artifact files"], False)
check("C09", CLI, "The query process is a stub whose answer, exit status, death and pacing are the simulator's choice; system call faults at seeded positions; artifacts decoded and compared with the answer.")

prop("C10", "Documentation commands deliver everything or fail",
     "The manual, completion and version commands deliver all of their output (every manual page, the whole script, the whole version text), or exit nonzero with a diagnostic; a failure part way never passes for success. They touch no file outside the requested directory.",
     ["fault_sequences", "configurations"],
     "Every failing, short or interrupted system call, disk-full point and allocation failure, and every choice of options.",
     "No test runs these commands.",
     ["crates/mitex-cli/src/main.rs", "crates/mitex-cli/src/utils.rs", "crates/mitex-cli/src/lib.rs"],
     [("errors of each page are returned", "crates/mitex-cli/src/main.rs generate_manual"),
      ("standard output is written through to its end", "crates/mitex-cli/src/main.rs")],
     (), ["exit status", "standard output", "manual directory"], False)
check("C10", CLI, "As C06, with the delivered pages and texts compared with those of an undisturbed run.")

prop("C21", "Commands running at the same time do not disturb each other",
     "Several commands may run at the same time in one directory, as editors and build tools start them. As long as none reads what another writes and no two write different contents to one file, each ends with the exit status, the output file and the printed text that it has when it runs alone; also when another one of them fails or is killed. Together they leave nothing behind but their outputs and change no other file.",
     ["schedules", "fault_sequences"],
     "Every interleaving of the system calls of the commands, every failure, short transfer, interruption or death of one of them, every choice of commands.",
     "Tests run one conversion at a time inside one process; the moments between two system calls at which another process acts cannot be chosen by a test.",
     ["crates/mitex-cli/src/main.rs", "crates/mitex-cli/src/utils.rs"],
     [("each command writes its own output path only", "crates/mitex-cli/src/main.rs compile"),
      ("directories are created whether or not they exist", "crates/mitex-cli/src/main.rs generate_manual")],
     (), ["exit status", "output files", "standard output", "directory contents"], False)
check("C21", CLI, "Real processes, one running at a time; a seeded scheduler decides at every system call on the directory who goes on. Trusts that what lies between two intercepted calls is private to the process.")

prop("C22", "The specification built into the library is the right one or the build fails",
     "The build step of the specification crate puts the specification defined by the Typst packages into the library when it can be queried, and the prebuilt one when there is no typst program or no project around the crate. It succeeds only if the built file is complete and decodes to exactly that; any failed query, refused or short write, missing prebuilt file or malformed answer fails the build with a diagnostic. It writes nothing outside of its output directory, whatever earlier builds left there.",
     ["fault_sequences", "crash_points", "configurations"],
     "Every failing, short or interrupted system call, disk-full point, death and allocation failure at any point, every behaviour of the typst program, every leftover of an earlier build.",
     "The tests run after one undisturbed build; no test runs the build step with a failing disk or program.",
     ["crates/mitex-spec-gen/build.rs", "crates/mitex-spec-gen/src/lib.rs", "crates/mitex-spec/src/lib.rs", "crates/mitex-spec/src/query.rs"],
     [("the built file is read back as it is by the library", "crates/mitex-spec-gen/src/lib.rs DEFAULT_SPEC"),
      ("every error of a step is returned", "crates/mitex-spec-gen/build.rs generate / copy_prebuilt")],
     (), ["exit status", "OUT_DIR/mitex-artifacts/spec/default.rkyv", "diagnostics"], False)
check("C22", CLI, "The shipped build.rs as a program; as C09. Trusts the typst stub.")

# ---------------------------------------------------------------- pure functions of the input
TS = "seeded deterministic simulation of the browser (one event queue for updates, timers, frames, renderer completions and inputs, with seeded delays, stalls and failures)"

prop("C11", "The preview hands every update to the renderer once and in order",
     "Whatever the arrival times of updates and inputs and however slow the renderer is, the preview hands each document update it received to the renderer at most once, in the order of arrival, and skips one only when a later full document supersedes it. It never drops the last update, never starts a rendering of the same view while another is running, and comes to rest when nothing arrives any more.",
     ["schedules", "histories"],
     "Every history of full and incremental updates, scrolls, resizes, zooms and settings, with every delay of timers, animation frames and renderer completions.",
     "The repository has no test of the preview.",
     ["packages/typst-dom/src/typst-doc.mts"],
     [("queue of pending changes, a full document clears it", "packages/typst-dom/src/typst-doc.mts TypstDocumentImpl addChangement / processQueue"),
      ("one update loop per view", "packages/typst-dom/src/typst-doc.mts triggerUpdate")],
     [("patchQueue", "updates not yet rendered", "packages/typst-dom/src/typst-doc.mts")],
     ["renderer calls", "addChangement", "addViewportChange"], None)
check("C11", TS, "Seeded histories in five modes against a renderer stub that records every call. Trusts the mini document model and the renderer stub.")

prop("C12", "The preview converges to the latest document and settings",
     "When updates and inputs stop arriving, the preview shows, within a bounded time, exactly the pages of the latest document it received, in order, with the current size, zoom, page colour, cursor and partial-rendering settings: visible pages with their content, every glyph, clip path and fill they use defined, canvases painted with the current content at the current resolution, nothing left over from earlier documents.",
     ["schedules", "histories"],
     "Every history of updates and inputs and every delay of timers, frames and renderer completions.",
     "The repository has no test of the preview.",
     ["packages/typst-dom/src/typst-doc.mts", "packages/typst-dom/src/typst-patch.mts", "packages/typst-dom/src/typst-animation.mts"],
     [("container state read for each change", "packages/typst-dom/src/typst-doc.mts processQueue / retrieveDOMState"),
      ("viewport changes debounced", "packages/typst-dom/src/typst-doc.mts addViewportChange"),
      ("pages, clips and paths merged into one svg", "packages/typst-dom/src/typst-doc.mts / typst-patch.mts")],
     [("shown document", "the element tree of the view", "packages/typst-dom/src/typst-doc.mts hookedElem")],
     ["document tree of the view after the system comes to rest"], None)
check("C12", TS, "Seeded histories in five modes; the tree shown at rest is compared with what a model of the latest document requires.")

prop("C13", "A failed rendering does not wedge the preview",
     "When merging an update, rendering the document or painting a page fails, any number of times and at any moment, the preview goes on processing: later updates and inputs are taken in order and, once failures stop, one further update or input makes it show the latest document as if nothing had failed.",
     ["schedules", "histories", "fault_sequences"],
     "Every placement of renderer failures in every history of updates and inputs, with every delay.",
     "The repository has no test of the preview, and none injects failures.",
     ["packages/typst-dom/src/typst-doc.mts"],
     [("errors of one change are caught", "packages/typst-dom/src/typst-doc.mts processQueue"),
      ("canvas pages painted under a cancellable token", "packages/typst-dom/src/typst-doc.mts displayCanvas / rerenderCanvas")],
     [("rendering markers", "attributes and tokens that keep a page from being painted twice", "packages/typst-dom/src/typst-doc.mts")],
     ["document tree of the view after recovery"], None)
check("C13", TS, "Seeded renderer failures (merge, svg, canvas) at chosen occurrences, singly, scattered and in bursts.")

prop("C14", "Updating the preview step by step shows what a fresh view would",
     "A view that followed a document through any number of incremental updates shows the same element tree as a view opened freshly on the last version with the same settings, however pages and their parts moved, repeated, changed, appeared or vanished on the way, and however updates were grouped.",
     ["histories", "schedules"],
     "Every history of versions and of the groups in which they were rendered.",
     "The repository has no test of the patching code.",
     ["packages/typst-dom/src/typst-patch.mts", "packages/typst-dom/src/typst-doc.mts"],
     [("elements reused by content id", "packages/typst-dom/src/typst-patch.mts interpretTargetView"),
      ("moves ordered for a live element list", "packages/typst-dom/src/typst-patch.mts changeViewPerspective")],
     [("shown pages", "elements kept from the previous rendering", "packages/typst-dom/src/typst-patch.mts")],
     ["element tree compared with a fresh view"], None)
check("C14", TS, "Seeded edit histories of 10 to 60 steps; svg and slide views compared with fresh views of the last version.")

prop("C15", "Canvas and content views show each page once, in place",
     "In the canvas and content modes every page of the document has exactly one canvas, painted with the page's current content at its size, in page order; the outline lists the entries last received in their order, and an entry can be collapsed exactly when it holds entries or pages. After any history the view equals a fresh view of the same document, outline and settings.",
     ["histories", "schedules"],
     "Every history of documents, outlines (also ones that arrive late or belong to an older version), sizes and zooms, and every delay of page paintings.",
     "The repository has no test of the preview.",
     ["packages/typst-dom/src/typst-outline.mts", "packages/typst-dom/src/typst-doc.mts"],
     [("pages spliced between outline entries", "packages/typst-dom/src/typst-outline.mts GenContext.spliceCanvas"),
      ("canvases taken over from the shown outline", "packages/typst-dom/src/typst-outline.mts reuseOrPatchOutlineElem"),
      ("cache keys of painted pages", "packages/typst-dom/src/typst-doc.mts displayCanvas")],
     [("canvas pages", "elements painted for a page, reused when the page moves", "packages/typst-dom/src/typst-doc.mts")],
     ["element tree compared with a fresh view", "clicks on outline entries"], None)
check("C15", TS, "Seeded histories of documents and outlines in canvas and content views, compared with fresh views.")

prop("C20", "A click in the preview leads to the place of what is shown there",
     "At any moment of any history, a click on a text, group, image or shape that a view with source mapping shows sends exactly one message, with the source location of that very occurrence in the version shown; a click on anything else sends none, nor does any click in a view without source mapping or one that was disposed of. A view opened again in the same place answers each click once. Following a link scrolls to the place it names in the document as it is shown then. The mark at the place clicked or jumped to is removed when its animation ends.",
     ["histories", "schedules"],
     "Every history of documents, scrolling, zooming and slide changes, with clicks and jumps at any moment, and views closed and opened again.",
     "The repository has no test of the preview; the location depends on what incremental patching, canvases for unrendered pages, slides and earlier views in the same place have left in the document.",
     ["packages/typst-dom/src/typst-debug-info.mts", "packages/typst-dom/src/typst-animation.mts", "packages/mitex-web/src/tools/typst.ts", "packages/typst-dom/src/typst-doc.mts"],
     [("path from the clicked element to its page", "packages/typst-dom/src/typst-debug-info.mts findSourceLocation"),
      ("handler replaced, never added twice", "packages/typst-dom/src/typst-debug-info.mts removeSourceMappingHandler"),
      ("scrolling to a place in a page", "packages/mitex-web/src/tools/typst.ts handleTypstLocation")],
     [("installed handler", "click handler kept with the element it listens at", "packages/typst-dom/src/typst-debug-info.mts")],
     ["messages sent to the editor", "marks and scroll positions after clicks and jumps"], None)
check("C20", TS, "Seeded histories with clicks and jumps; the location sent is compared with the identity of the element clicked. Trusts the mini document model and the layout of the simulated window.")

WEB = "seeded deterministic simulation of the web pages (simulated browser, network, storage, compiler), checked against a model of what the user did"

prop("C16", "The converter page shows the conversion of the last input",
     "Once typing stops, the converter page's output is the conversion of the text in the input box, or its error line says why there is none; the picture is that of the most recent output that could be rendered; and copying at any moment yields the current output in the chosen template. This holds in whatever order and however late the page's own code, the typesetting script, its module and its fonts arrive.",
     ["schedules", "histories", "inputs"],
     "Every sequence of inputs, every order and delay of the parts of the page to load, every delay and failure of a rendering.",
     "The repository has no test of the web pages.",
     ["packages/mitex-web/src/main.ts", "packages/mitex-web/src/loader.mjs"],
     [("states derived from the input", "packages/mitex-web/src/main.ts App"),
      ("the compiler is taken up when its script has loaded", "packages/mitex-web/src/main.ts window.$typst$script.then")],
     [("page states", "input, output, error, picture and load states", "packages/mitex-web/src/main.ts")],
     ["output box, error line, picture and clipboard of the page"], None)
check("C16", WEB, "Seeded visits of the page with every part loading at a seeded time; conversion and rendering are stubs whose calls are served in order.")

prop("C17", "Editor, compiler and preview agree once things settle",
     "In the editor page, when input and loading have stopped, the text in the editor, the files the compiler holds, the text last compiled, the preview and the listed files all belong to the same project: the one of the repository where it could be fetched and else the one stored in the browser, with the user's later edits; the document is compiled and shown in the current colour scheme, and the error line shows the failure of the last compilation and nothing else. What the user types after loading is never replaced. This holds in whatever order the script, fonts, stored files and repository arrive, and when fetching them fails.",
     ["schedules", "histories", "fault_sequences"],
     "Every sequence of edits and colour changes, every order and delay of the parts to load, every failing or hanging step of fetching the repository.",
     "The repository has no test of the web pages.",
     ["packages/mitex-web/src/tools/underleaf.ts", "packages/mitex-web/src/tools/underleaf-editor.ts", "packages/mitex-web/src/tools/underleaf-fs.ts", "packages/mitex-web/src/tools/underleaf-preview.ts"],
     [("edits go to the compiler and then to the focused file", "packages/mitex-web/src/tools/underleaf-editor.ts updateListenerExtension"),
      ("a loaded project is given to compiler and editor", "packages/mitex-web/src/tools/underleaf-fs.ts reloadAll"),
      ("recompilation on every change", "packages/mitex-web/src/tools/underleaf.ts App")],
     [("project files", "states of the files, the focused one shown in the editor", "packages/mitex-web/src/tools/underleaf-fs.ts"),
      ("compiler files", "the compiler's copy of the project", "typst.ts (outside the repository)")],
     ["editor text, compiled files, shown document, error line, file list"], None)
check("C17", WEB, "Seeded visits with loading, editing and failures interleaved; judged at rest after loading and again after further edits. Assumes one compiler instance serving its calls in order.")

prop("C18", "The stored project survives closing the page at any moment",
     "Whenever the editor page is closed, the browser's storage holds one complete project in which every file is as it was at one time: no save drops a file, mixes in content that never was, or replaces a newer edit by an older one, and a save that fails leaves the previous one. When edits stop, the latest of them is stored, and reopening the page without the repository shows it, byte for byte.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "Every moment of closing, every interleaving of saves with edits and loading, every delay of reading the files, every storage or reading failure, and any number of visits.",
     "The repository has no test of the web pages.",
     ["packages/mitex-web/src/tools/underleaf-fs.ts"],
     [("saves ordered by their start", "packages/mitex-web/src/tools/underleaf-fs.ts FsState.save"),
      ("stored files read back", "packages/mitex-web/src/tools/underleaf-fs.ts FsState.load")],
     [("fsState", "the project stored in the browser", "packages/mitex-web/src/tools/underleaf-fs.ts localStorage")],
     ["stored value after every save", "editor text after reopening"], None)
check("C18", WEB, "One to three visits over one storage, closed at seeded moments, with refused writes and failing file reads; every stored value is judged.")

prop("C19", "Exports hold the text in the editor, in the light scheme",
     "An export started while the project is loaded saves exactly one file of the chosen kind, holding the text that was in the editor at that moment and typeset in the light colour scheme, whatever edits and recompilations are under way; and the preview keeps following the edits in the current scheme.",
     ["schedules", "histories"],
     "Every interleaving of exports with edits, colour changes and compilations.",
     "The repository has no test of the web pages.",
     ["packages/mitex-web/src/tools/underleaf.ts"],
     [("the light scheme is set before exporting", "packages/mitex-web/src/tools/underleaf.ts exportPdf, exportHtml"),
      ("each compilation sets its scheme", "packages/mitex-web/src/tools/underleaf.ts App")],
     [("styling.typ in the compiler", "the colour scheme of the next compilation", "packages/mitex-web/src/tools/underleaf.ts setTypstTheme")],
     ["files saved by the page", "documents compiled"], None)
check("C19", WEB, "Seeded visits with exports among edits and colour changes. Assumes one compiler instance serving its calls in order.")

PURE = "A function of one document and nothing else: no schedule, time, I/O or fault takes part, so a simulator has nothing to vary but the input, which would be input fuzzing under another name. "

prop("C31", "Conversion is total",
     "Every document, however malformed, gives either converted output or an error value, in bounded time; it never panics or overflows the stack.",
     ["inputs"], "Every document and specification.", "Tests sample documents; the fuzz targets in the repository are not run by them.",
     ["crates/mitex-parser/src/parser.rs", "crates/mitex/src/converter.rs", "crates/mitex-lexer/src/macro_engine.rs"], [("error nodes instead of failures", "crates/mitex-parser/src/parser.rs")], (), ["convert_text", "convert_math"])
na("C31", PURE + "It does not hold (see DESIGN.md, observations outside the technique); what such a panic does to other calls and to files is decided under C01, C02 and C07.")

prop("C32", "Converted output means what the LaTeX meant",
     "For the supported commands the converted output is valid Typst that renders as the LaTeX document does.",
     ["inputs"], "Every document of supported constructs.", "Snapshots fix the output of samples; nothing checks meaning.",
     ["crates/mitex/src/converter.rs", "packages/mitex/specs"], [("conversion rules per command", "crates/mitex/src/converter.rs")], (), ["convert_text", "convert_math"])
na("C32", PURE + "It also needs a reference semantics of LaTeX and Typst.")

prop("C33", "Argument patterns match as documented",
     "The argument pattern of a command accepts exactly the argument lists its pattern language describes, and a partial match never commits to arguments a longer match would take differently.",
     ["inputs"], "Every pattern and argument list.", "Fixed patterns are tested.",
     ["crates/mitex-glob/src/lib.rs", "crates/mitex-parser/src/arg_match.rs"], [("derivative matcher", "crates/mitex-glob/src/lib.rs")], (), ["parse"])
na("C33", PURE)

prop("C34", "Macro expansion follows TeX",
     "Expanding a user-defined macro gives the token list TeX's rules give, including optional defaults, nesting and redefinition.",
     ["inputs"], "Every sequence of definitions and uses.", "Fixed samples.",
     ["crates/mitex-lexer/src/macro_engine.rs"], [("macro engine", "crates/mitex-lexer/src/macro_engine.rs")], (), ["convert_*", "parse"])
na("C34", PURE + "Visibility of definitions across calls, and expansion across buffer boundaries, are decided under C02 and C03.")
