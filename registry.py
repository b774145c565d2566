LX = "grammar-based monitor: documents are generated element by element, and the tokens which the sanitized highlighter emits are compared to the extent and type the grammar gives each element"
# property -> (module, function, evidence level, technique, level note)
FZ = "runtime monitors over every flush of the C API, under a systematic mutation sweep and coverage-guided fuzzing of all 25 languages"
FN = "exploration: every observed execution is judged by an exact oracle; inputs are sampled, not enumerated"
CHECKS = {
    "C01": ("api", "c01", "exploration", "AddressSanitizer, UBSan, LeakSanitizer and assertion monitors under a mutation sweep and coverage-guided fuzzing, debug and release builds", FN),
    "C02": ("api", "c02", "exploration", FZ, FN),
    "C03": ("api", "c03", "exploration", FZ, FN),
    "C04": ("api", "c04", "exploration", FZ, FN),
    "C05": ("api", "c05", "exploration", FZ + "; reference renderer as oracle", FN),
    "C06": ("api", "c06", "exploration", FZ + "; flush-history checker and differential runs over capacities", FN),
    "C07": ("determ", "c07", "exploration", "ThreadSanitizer with eight concurrent highlighters, and differential monitors over histories, orders, buffer, stack and heap contents", FN),
    "C08": ("api", "c08", "exploration", FZ + "; differential runs with and without the flag", FN),
    "C09": ("capi", "c09", "exploration", "contract monitor over calls with every kind of invalid parameter, under AddressSanitizer and in plain builds", FN),
    "C10": ("capi", "c10", "exploration", "fault injection: an allocation monitor fails chosen allocations and balances all blocks, with and without AddressSanitizer", FN),
    "C11": ("capi", "c11", "exploration", "reference monitor over the lookup functions, against the library's list and the documented table", FN),
    "C12": ("capi", "c12", "exploration", "exhaustive observation of the name functions over all values, against the header's constants", "all 256 values of a highlight type are tried"),
    "C26": ("capi", "c26", "exploration", "differential monitor of random histories on the C++ interface against the C interface", FN),
    "C16": ("jsonparser", "run", "exploration", "differential monitoring of the parser (under AddressSanitizer and UBSan) against an independent recogniser", FN),
    "C17": ("jsonparser", "run", "exploration", "online trace checker: every event of the real parser is compared to those of an independent reference", FN),
    "C18": ("jsonparser", "run", "exploration", "online trace checker: errors, their position and the events before them, against a reference which knows the first impossible byte", FN),
    "C19": ("text", "c19", "exploration", "reference monitor over every decoding and encoding function, portable and BMI2 builds, under AddressSanitizer for views", FN),
    "C20": ("text", "c20", "exploration", "reference monitor: predicates against Python's Unicode database over all code points, searches against a naive loop", FN),
    "C21": ("text", "c21", "exploration", "model-based history monitor for character sets, reference monitor for predicates, conversions and searches", FN),
    "C22": ("containers", "c22", "exploration", "reference monitor: every result of the shared matchers is compared to a naive definition, under AddressSanitizer and UBSan and in release builds", FN),
    "C23": ("containers", "c23", "exploration", "oracle over the results: scripts are applied and counted against the longest common subsequence, printed diffs are parsed and applied", FN),
    "C24": ("files", "c24", "exploration", "monitored and failing stdio under every loading function and random histories of handles, AddressSanitizer and release builds", FN),
    "C25": ("files", "c25", "exploration", "black-box monitor of the sanitized tool: output, exit status and diagnostics under every language and injected input and output failures", FN),
    "C27": ("containers", "c27", "exploration", "model-based history monitor for buffers, call-counting monitor for function references, under AddressSanitizer and UBSan", FN),
    "C32": ("lang_jvm", "c32", "exploration", LX, FN),
    "C33": ("lang_rust", "c33", "exploration", LX, FN),
    "C34": ("lang_python", "c34", "exploration", LX, FN),
    "C35": ("lang_lua", "c35", "exploration", LX, FN),
    "C36": ("lang_bash", "c36", "exploration", LX, FN),
    "C37": ("lang_css", "c37", "exploration", LX, FN),
    "C38": ("lang_markup", "c38", "exploration", LX, FN),
    "C39": ("lang_data", "c39", "exploration", LX, FN),
    "C40": ("lang_markdown", "c40", "exploration", LX, FN),
    "C41": ("lang_misc", "c41", "exploration", LX, FN),
    "C42": ("lang_misc", "c42", "exploration", LX, FN),
    "C43": ("lang_misc", "c43", "exploration", LX, FN),
    "C14": ("scale", "c14", "exploration", "counting monitor: the control-flow edges the real code executes are counted (compiler instrumentation) against a quadratic bound", FN),
    "C15": ("scale", "c15", "exploration", "stress with nested sources on threads with an 8 MiB stack, watched for stack exhaustion", FN),
    "C31": ("lang_js", "c31", "exploration", LX, FN),
    "C30": ("lang_cpp", "c30", "exploration", LX, FN),
}
DF = "differential monitoring: the tokens the sanitized highlighter emits for a source are compared with those it emits for its parts or under the other flag"
CHECKS.update({
    "C13": ("meta", "c13", "exploration", DF, FN),
    "C44": ("meta", "c44", "exploration", DF, FN),
    "C46": ("meta", "c46", "exploration", "monitor of malformed elements among generated sources, compared with the tokens which the sanitized highlighter emits for the sources alone", FN),
    "C47": ("meta", "c47", "exploration", "monitor of comments and literals which the end of the source leaves unterminated, after generated sources, on the tokens which the sanitized highlighter emits", FN),
    "C48": ("meta", "c48", "exploration", "monitor which compares the tokens that the sanitized highlighter emits for a source with LF and with CRLF line ends", FN),
    "C45": ("meta", "c45", "exploration", DF, FN),
})
NOT_APPLICABLE = {}
