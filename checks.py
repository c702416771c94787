"""Which harness entries decide which property, with their bounds."""

def names(prefix, s):
    return [prefix + x for x in s.split()]

CHECKS = {}

# ------------------------------------------------------------------ SDK side (contract ABI, runtime library)
INTS = "u8 i8 u16 i16 u32 i32 u64 i64"
CHECKS["P01"] = {
    "parts": [{
        "group": "sdk",
        "entries": names("h_abi_", "bool " + INTS + " amount address unit mixed")
        + names("h_abi_arr_", "bool " + INTS + " amount address wide")
        + ["h_abi_tuple%d" % i for i in range(1, 7)],
    }],
    "bounds": "every value of every primitive (all 2^64 integers and amounts, all 20-byte addresses); arrays of 0..=10 elements with every element value in one symbolic position and every length (all elements symbolic up to 3 wide elements, and all boolean arrays); tuples of 1 to 6 components",
    "assumptions": ["arrays longer than ten elements share the encoder's length rule with shorter ones but are not executed, nor are nested tuples"],
}
CHECKS["P02"] = {
    "parts": [{
        "group": "sdk",
        "entries": ["h_cd_any", "h_cd_seq", "h_cd_array", "h_cd_array_long"] + names("h_cdt_", "bool " + INTS + " address amount arr"),
        "thorough": ["h_cd_seq_deep", "h_cd_array_deep"],
        "need": [],
        "labels": dict([(e, ["accepted", "rejected"]) for e in ("h_cd_any", "h_cd_seq", "h_cd_array", "h_cd_array_long")]
                       + [(e, ["some", "none", "stop"]) for e in names("h_cdt_", "bool " + INTS + " address amount")]
                       + [("h_cdt_arr", ["some", "stop"])]),
    }],
    "bounds": "every byte string of up to 22 bytes for a single value, up to 3 bytes (thorough: 4) for a sequence of values, up to 4 (thorough: 6) bytes of an array and 8..=10-item arrays of one-byte values",
}
CHECKS["P03"] = {
    "parts": [{
        "group": "sdk",
        "entries": names("h_str_", INTS + " amount layer address builder") + ["h_amount_arith", "h_amount_add", "h_amount_mul", "h_vec_u8", "h_vec_u64"],
        "thorough": ["h_vec_deep"],
        "labels": {"h_str_builder": ["built", "stopped"], "h_amount_arith": ["exact", "stopped"], "h_vec_u8": ["end", "empty-pop"], "h_vec_u64": ["end", "empty-pop"]},
    }],
    "bounds": "every value of every integer type, amount, layer and address; every split of a string builder's pushes up to its capacity bound in the harness; vectors of capacity up to 4 under sequences of up to 5 operations (thorough: deeper)",
}
CHECKS["P04"] = {
    "parts": [{
        "group": "sdk",
        "entries": ["h_sto_fields", "h_sto_array_bounds", "h_sto_ops"],
        "labels": {"h_sto_array_bounds": ["inside", "outside"]},
    }],
    "bounds": "one storage struct with every supported field type and arrays of 2, 3 and 9 elements; every pair (written field, probed field) and all values; every 64-bit array index",
}
CHECKS["P05"] = {
    "parts": [{
        "group": "sdk",
        "entries": ["h_disp_args", "h_disp_fund", "h_disp_fund_default", "h_disp_badargs"],
        "labels": {"h_disp_fund": ["funded", "plain"]},
    }],
    "bounds": "a template with constructor, funded and plain endpoints: all argument values, all 64-bit incoming amounts, every malformed calldata within the harness's length bound",
}

# ------------------------------------------------------------------ host codec
CHECKS["P06"] = {
    "parts": [{"group": "codec", "entries": names("h_tx_", "envelope context call spawn oversized")}],
    "bounds": "every value of every fixed-size field; names of 0..=3 bytes of any valid UTF-8 and of 255 ASCII bytes; blobs of 0, 1, 2, 3, 254 and 255 arbitrary bytes; oversized fields of 256 and 512 bytes; truncation to half and to all but one byte",
    "assumptions": ["a gas limit of zero means no limit on the wire (documented by the repository's own test), so Some(0) is not a value of the format"],
}
UN = "envelope context call spawn code data ctors header deploy sections receipt_failed receipt_deploy receipt_call receipt_spawn"
CHECKS["P07"] = {
    "parts": [{
        "group": "codec",
        "entries": names("h_un_", UN + " template"),
        "labels": dict([(e, ["accepted", "rejected"]) for e in names("h_un_", UN)] + [("h_un_template", ["rejected"])]),
    }],
    "bounds": "arbitrary bytes of the lengths listed in harness/codec/src/untrusted.rs (empty, cut at each field, exact, with bytes following); length and count fields take small values, values around the number of bytes left and one or two far too large ones; text of up to 3 arbitrary bytes, longer text ASCII; one section (two when skipped)",
    "assumptions": ["length claims between 'slightly too long' and the maximum all end in the same end-of-input error; memory exhaustion by a huge claim is outside the bound"],
}
CHECKS["P08"] = {
    "parts": [{
        "group": "codec",
        "entries": names("h_sec_", "code data data_wide ctors header deploy template interest skip many big") + ["h_layout", "h_layout_many"],
        "labels": {"h_sec_data_wide": ["fits", "refused"]},
    }],
    "bounds": "all values of all fixed-size fields, code of 0, 1, 3 and 300 bytes, up to 2 layouts of up to 2 variables of any size and any first id (and 9, 17, 40 and 300 variables with two of any size, 260 layouts), up to 3 constructors of up to 2 bytes of valid UTF-8 (and 254 of them), every subset of sections in every rotated order, every choice of skipping",
}
CHECKS["P09"] = {
    "parts": [{"group": "codec", "entries": names("h_rc_", "call spawn deploy failed long_msg one_encoding many")}],
    "bounds": "all values of all fixed-size fields, return data of 0, 1, 2 and 300 bytes, up to 2 logs, every subset of 3 concrete touched addresses (and 260 of them), every error kind with texts of 0, 2 and 255 bytes, messages longer than 255 bytes with characters of 1 to 4 bytes across the cut",
}

# ------------------------------------------------------------------ global state
SQLX = "SQLite is replaced by an in-memory interpreter of the SQL text found in /repo (harness/stubs/sqlx): a statement is atomic and durable once executed, concurrent statements run in any order, a crash falls between statements; hashing is an injective uninterpreted function"
CHECKS["P10"] = {
    "parts": [{"group": "state", "entries": ["h_gs_history"], "thorough": ["h_gs_history_deep"]}],
    "bounds": "0 to 2 committed layers of two accounts, then every sequence of two rounds (thorough: three from an empty state), each writing any subset of the accounts with any values and then checkpointing, rolling back or neither, and then committing, rewinding to any existing layer or neither; after every step all accounts are read at present, at the end also at every layer",
    "assumptions": [SQLX],
}
CHECKS["P11"] = {
    "parts": [{"group": "state", "entries": ["h_gs_reopen", "h_gs_crash_commit", "h_gs_crash_rewind", "h_gs_crash_init", "h_genesis"], "thorough": ["h_gs_crash_commit_deep"],
               "labels": {"h_gs_crash_commit": ["committed", "crashed", "end"], "h_gs_crash_commit_deep": ["committed", "crashed", "end"], "h_gs_crash_rewind": ["done", "crashed"], "h_gs_crash_init": ["done", "crashed"]}}],
    "bounds": "up to 2 layers (3 before a rewind), two accounts with any values; a crash before every single database statement of a commit (in every order of the concurrent inserts), of a rewind and of opening a fresh or existing database, followed by opening it again and committing one more layer; one or two clean reopenings around a round of P10",
    "assumptions": [SQLX],
}
CHECKS["P12"] = {
    "parts": [{"group": "state", "entries": ["h_root_same", "h_root_history", "h_root_differs", "h_root_fields", "h_root_concrete"], "thorough": ["h_root_history_deep"]}],
    "bounds": "two or three accounts with any balances, nine ways of reaching the same contents (orders, checkpoints, layers, overwrites, rollbacks, rewinds) and every history of four steps (thorough: six) out of writing either of two accounts, checkpoint, rollback, commit and rewind to layer 0 before the final values are written; any two different balances of one account in one or two layers; accounts and templates that differ in the balance, the counter, the name, the template, a byte of a 70-byte variable, the code or the description; all 729 pairs of contents of three accounts over {absent, 0, 2^40}",
    "assumptions": [SQLX, "hash values of different inputs are different and their combinations collide only where the model's fixed mixing function collides"],
}
CHECKS["P13"] = {
    "parts": [{"group": "state", "entries": names("h_var_", "sizes saved numbers buffer layers") + ["h_acc_meta", "h_tmpl_sections"],
               "labels": {"h_var_buffer": ["fits", "refused"]}}],
    "bounds": "layouts of three variables with every combination of sizes 0, 1, 8, 20, 31, 32, 33 and 70 and first ids 0, 1 and 5, plus five layouts spanning several 32-byte segments; every two writes of any values, kept dirty, checkpointed or committed; every 32- and 64-bit integer; buffers shorter than, equal to and longer than the variable; two writes of any balance, counter, variable or sections around checkpoints and commits",
    "assumptions": [SQLX],
}
WASMER = "wasmer and tokio are replaced by models (harness/stubs/wasmer, harness/stubs/tokio): a guest is a function that calls the registered host imports on a linear memory of one page, traps end the call with an error, a panic of a host function reaches the caller of the exported function; futures run on the calling thread"
CHECKS["P14"] = {
    "parts": [{"group": "runtime", "entries": names("h_rt_", "transfer call_transfer balance respawn"),
               "labels": {"h_rt_transfer": ["done", "refused"], "h_rt_call_transfer": ["success", "failure"], "h_rt_balance": ["done", "refused"]}}],
    "bounds": "three accounts with any 64-bit balances; one host transfer of any amount between any two of them or a missing account; calls making one or two transfers of any amounts out of the running or another account, to itself, another or a missing account, ending normally or in a trap; one balance increase by any amount, commit and rewind; two spawns of one template with any coins given to the account in between",
    "assumptions": [SQLX, WASMER],
}
CHECKS["P15"] = {
    "parts": [{"group": "runtime", "entries": names("h_rt_", "call vars spawn deploy addrs targets"),
               "labels": {"h_rt_call": ["success", "failure"], "h_rt_vars": ["done", "refused"], "h_rt_spawn": ["success", "failure"], "h_rt_deploy": ["deployed", "refused"]}}],
    "bounds": "calls of up to two host calls out of seven kinds (storing 32-, 64- and 160-bit variables, transfer, log, return data, reading back) with any values, ending normally, in a trap, or in a refused host call, with and without changes of other accounts waiting to be committed; the six storage calls on variables of 1, 4, 8 and 20 bytes; spawns with a constructor, a non-constructor or a missing function, any gas limit or none, and three endings; deployments with any gas limit or none; the addresses of any two templates with codes of 1, 2 and 40 bytes and of their accounts; calls of constructors, missing functions and functions with parameters",
    "assumptions": [SQLX, WASMER, "gas prices come from the real svm-gas on the fixed module; whether a limit between the message's price and 10000 above it suffices for a spawn is not checked"],
}
CHECKS["P16"] = {
    "parts": [{"group": "runtime", "entries": names("h_rt_", "calldata pointers blocks"),
               "labels": {"h_rt_calldata": ["passed", "refused"], "h_rt_pointers": ["done", "refused"], "h_rt_blocks": ["allocated", "end"]}}],
    "bounds": "memory of one page; calldata of 1, 2, 20 and 255 bytes placed at eight offsets around both ends of the memory and of the address space; log, store, load, transfer and return data with eight such offsets and lengths 0, 1, 20 and 260 with any bytes and 40000 with fixed ones; three allocations of ten sizes from 1 to 2^32-1",
    "assumptions": [SQLX, WASMER],
}
CHECKS["P17"] = {
    "parts": [{"group": "runtime", "entries": names("h_rt_", "verify alloc_access"),
               "labels": {"h_rt_verify": ["verified", "refused"], "h_rt_alloc_access": ["done", "refused"]}}],
    "bounds": "svm_verify, and svm_alloc called for the calldata of a call, attempting each of the seven host calls that reach the storage, trapping or returning",
    "assumptions": [SQLX, WASMER],
}
CHECKS["P18"] = {
    "parts": [{"group": "ffi", "entries": names("h_ffi_", "result results unwrap_error create handles destroy reopen"), "labels": {"h_ffi_create": ["invalid path", "end"]}}],
    "bounds": "results of up to 4 bytes, two at a time; creations with any invalid 2-byte path; three steps of creating, using and destroying over null, unknown, live and destroyed handles; two databases",
    "assumptions": [SQLX, "one thread; the library's `svm_init` etc. are called as a C program would, pointers given to it point to memory of the documented size"],
}
CHECKS["P19"] = {
    "parts": [{"group": "ffi", "entries": names("h_ffi_", "accounts actions garbage validate"), "thorough": names("h_ffi_", "accounts_deep"),
               "labels": {"h_ffi_accounts": ["dirty", "end"], "h_ffi_actions": ["deploy", "spawn", "verify", "call", "end"], "h_ffi_validate": ["valid", "refused"]}}],
    "bounds": "three (thorough: four) steps over two accounts with any balances, counters and amounts; one transaction of each kind with any envelope and context, three functions, three outcomes; garbage in the envelope, the context or a message of up to 6 bytes with up to one section; validation of valid and invalid messages of each kind",
    "assumptions": [SQLX, WASMER],
}
CHECKS["P20"] = {
    "parts": [{"group": "gas", "entries": names("h_gas_", "price nested tables calls modules rules cycles forbidden"), "thorough": names("h_gas_", "price_deep cycles_deep"),
               "labels": {"h_gas_price": ["end"], "h_gas_calls": ["end"], "h_gas_rules": ["valid", "cycle"], "h_gas_cycles": ["valid", "cycle"]}}],
    "bounds": "all well-nested functions of four control instructions out of block, if, else, end, br, br_if, br_table, return and unreachable (thorough: also five out of if, else, end, br and br_if), each followed by another instruction, with any 16-bit prices; the same with three instructions, calls to an import and two helpers among them; four nested scopes, each a block, an if or an if with else, with a jump to any of them in the innermost, with instructions of prices 0 and 1; jumps over tables of up to three labels, any of four, with any default; modules with three imports of any kinds and a call of any of them; all call graphs of three functions with up to two calls each and of four (thorough: five) with one; a loop or an indirect call in any function",
    "assumptions": ["code is well-nested and its labels exist (code WebAssembly accepts); sums of prices fit in 64 bits"],
}
CHECKS["P21"] = {
    "parts": [{"group": "gas", "entries": names("h_mod_", "floats exports imports untrusted mutated"), "thorough": names("h_mod_", "untrusted_deep"),
               "labels": {"h_mod_floats": ["accepted", "float"], "h_mod_exports": ["accepted", "refused"], "h_mod_mutated": ["accepted", "refused"]}}],
    "bounds": "every one-byte opcode in either of two functions; two exports of three names, any kind, function index and type up to 5, with and without an import; three imports of any kind; any module of up to 4 (thorough: 5) bytes after the header, and a module of 108 bytes with any one byte replaced",
    "assumptions": ["parity-wasm reads the bytes, as in the real code: what it refuses is invalid"],
}
CHECKS["P22"] = {
    "parts": [{"group": "gas", "entries": names("h_gas_", "limits ranges bytes"), "labels": {"h_gas_limits": ["added", "end"], "h_gas_ranges": ["both", "end"]}}],
    "bounds": "all 64-bit amounts, limits and ranges whose sums fit in 64 bits; messages of up to 299 bytes",
    "assumptions": ["sums beyond 64 bits are not covered"],
}
CHECKS["P23"] = {
    "parts": [{"group": "json", "entries": names("h_json_", "numbers types values garbage call spawn foreign"), "thorough": names("h_json_", "numbers_deep garbage_deep"),
               "labels": {"h_json_numbers": ["encoded", "refused"], "h_json_types": ["encoded", "refused"], "h_json_call": ["encoded", "refused"], "h_json_spawn": ["encoded", "refused"], "h_json_garbage": ["decoded", "refused"], "h_json_values": ["encoded"], "h_json_foreign": ["decoded", "refused"]}}],
    "bounds": "all integer texts of up to 6 digits, and of 10 to 20 digits with the last 4 to 6 (thorough: 6 to 8) arbitrary, of either sign, against all nine numeric types; 14 kinds of value against 11 types in 12 shapes; calls and spawns with one field at a time arbitrary (a byte of an address, two characters of a name, the last digits of a version, seven kinds of input data) or missing; any input data and messages of up to 3 (thorough: 4) bytes",
    "assumptions": ["names of characters that JSON text holds as they are; numbers with a fraction or exponent, or beyond 64 bits, as single examples", "nesting of documents is limited by serde_json"],
}
CHECKS["P24"] = {
    "parts": [{"group": "json", "entries": names("h_json_", "receipt failure buffers documents"),
               "labels": {"h_json_receipt": ["shown", "log that isn't text"], "h_json_failure": ["shown"], "h_json_buffers": ["error"], "h_json_documents": ["success", "error"]}}],
    "bounds": "receipts of all three kinds and ten failures with one part at a time arbitrary: a byte of the gas, of an address or of the state, up to 2 bytes of return data, a log of 2 bytes, up to three touched accounts; buffers with any document of up to 3 bytes or one of four whole documents given to each of the seven functions",
    "assumptions": ["clients pass buffers obtained from wasm_alloc and free each once"],
}
CHECKS["P25"] = {
    "parts": [{"group": "tools", "entries": names("h_query_", "var batch mismatch schema"), "labels": {"h_query_var": ["shown", "not shown"]}}],
    "bounds": "variables of each of the seven types, 12 sizes from 0 to 32 bytes and any contents, at two offsets; up to three requests over three variables and an unknown one; storages giving one byte less or up to two bytes more than the variable has; schemas built in three steps",
    "assumptions": ["the storage reader is the harness's own (the queries take any), and gives back what it holds"],
}
CHECKS["P26"] = {
    "parts": [{"group": "tools", "entries": names("h_cli_", "layout ctors sdk")}],
    "bounds": "metadata with up to three fields of any size from 1 to 99 bytes, plain or arrays of up to 3; up to three functions with any names of up to 2 printable characters; the metadata of one contract with nine fields of all storable types, arrays of up to 9 elements included, written through its accessors with any values",
    "assumptions": ["the command's module that reads the metadata is compiled into the harness from its source file; the rest of the command line is not"],
}
CHECKS["P27"] = {
    "parts": [{"group": "state", "entries": ["h_gs_faults"], "thorough": ["h_gs_faults_deep"],
               "labels": {"h_gs_faults": ["done", "failed", "end"]}}],
    "bounds": "up to one (thorough: two, with the concurrent inserts in every order) committed layers, any checkpointed and dirty changes of two accounts with any balances; any one database statement of a checkpoint, commit, rewind, reading of the current layer or change of a balance fails once without an effect; afterwards all contents are read at every layer and everything is committed",
    "assumptions": [SQLX, "a statement that reports an error has changed nothing"],
}
