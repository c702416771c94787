#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; both outputs are committed)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
TECH = "symbolic execution of the compiled LLVM IR of the real code, Z3 deciding every branch and assertion within stated bounds; counterexamples replayed natively"
NOTE = "Holds for every input within the bounds listed in the evidence file; trusts the symbolic interpreter (validated by replaying sampled paths natively), Z3 and the stubs named in DESIGN.md."


def prop(id, title, statement, over, quant, why, files, mech, observe=(), state=(), note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None), _note=note, _na=na))


W = "crates/wasm/"
H = "crates/host/"
prop("P01", "Contract ABI: encode then decode gives the value back, in the documented format",
     "Encoding any value, optional value, array or tuple of supported contract types and decoding the bytes as the same type yields the original value and consumes exactly those bytes. The bytes are exactly the documented marker-and-minimal-big-endian format. The declared size of a value equals its encoded length and never exceeds its type's declared maximum.",
     ["inputs"], "all values of all supported types; arrays of up to 10 elements; tuples of up to 6 components",
     "tests encode a handful of constants per type; the width selection has a boundary at every power of 256, and arrays multiply the combinations",
     [W + "abi-encoder/src", W + "abi-decoder/src", W + "abi-layout/src/lib.rs"],
     [("marker choice by minimal width", W + "abi-encoder/src/types/numeric.rs"), ("decode loop", W + "abi-decoder/src/decoder.rs")],
     ["bytes produced by encode", "values returned by CallData::next_N"])
prop("P02", "Untrusted calldata is decoded as documented or stops execution",
     "For every byte string given as calldata, reading values either yields exactly the values the documented format assigns to those bytes, or reports that no value is left, or stops execution. No read goes outside the given bytes and truncated or unknown input never produces a value.",
     ["inputs"], "all byte strings up to the length bounds, read as a sequence of values or as any given type",
     "tests decode only bytes their own encoder produced; malformed, truncated and over-long inputs are not sampled",
     [W + "abi-decoder/src/decoder.rs", W + "abi-decoder/src/cursor.rs", W + "abi-decoder/src/calldata.rs", W + "sdk-types/src/value.rs"],
     [("end-of-input checks of the cursor", W + "abi-decoder/src/cursor.rs"), ("marker table", W + "abi-layout/src/lib.rs")],
     ["values returned by CallData::next_N", "whether execution stops"])
prop("P03", "Contract library: exact text, exact amounts, bounded containers",
     "Rendering an integer, amount, layer or address as text yields its exact decimal or hexadecimal form for every value. Subtracting amounts is exact or stops execution, and sums and products that fit are exact. A fixed-capacity container behaves as a plain list of at most its capacity and refuses, without corruption, what does not fit.",
     ["inputs", "histories"], "all values; all operation sequences within the bounds",
     "tests print a few small values and push a few items; the digit-count boundaries, extreme values and capacity edges are not reached",
     [W + "sdk-std/src", W + "sdk-types/src/amount.rs", W + "sdk-types/src/layer_id.rs", W + "sdk-types/src/address.rs"],
     [("digit loop", W + "sdk-std/src/string/traits.rs"), ("capacity checks", W + "sdk-std/src/vec.rs")],
     ["text bytes", "amount values", "vector contents"])
prop("P04", "Contract storage fields hold exactly what was last written to them",
     "After any writes through the generated accessors of a contract's storage struct, each field and each array element reads back the last value written to it, or zero if there was none. Writing one never changes another. An array access outside the array's bounds stops execution and changes nothing.",
     ["inputs", "histories"], "all values, all ordered pairs of written cells, every cell probed afterwards; all array indices",
     "tests write one or two fields with one value; overlap between neighbours and index arithmetic need all pairs and all indices",
     [W + "sdk-storage/src/lib.rs", W + "sdk-macros/src/struct/storage.rs", W + "sdk-storage-mock/src/lib.rs"],
     [("variable numbering", W + "sdk-macros/src/struct/storage.rs"), ("array index check", W + "sdk-storage/src/lib.rs")],
     ["values returned by the generated getters"])
prop("P05", "Endpoints get their arguments unchanged; funding hooks run iff coins come",
     "A generated endpoint receives exactly the argument values encoded in the calldata, in order, and its result is returned unchanged. A fundable endpoint runs its own funding hook (or the default one) exactly once before its body when a non-zero amount is attached and never otherwise. Calldata that does not match the parameters stops execution before the body runs.",
     ["inputs"], "all argument values, all attached amounts, malformed calldata within bounds",
     "tests call endpoints with a few constants; the boundary between zero and non-zero funding and the whole value range are not covered",
     [W + "sdk-macros/src/function", W + "sdk-macros/src/template.rs", W + "sdk-host-mock/src/lib.rs"],
     [("endpoint wrapper", W + "sdk-macros/src/function/endpoint.rs"), ("funding prologue", W + "sdk-macros/src/function/fundable.rs")],
     ["returned data", "contract storage after the call"])

C = H + "codec/src/"
prop("P06", "Transactions, envelopes and contexts survive the wire unchanged",
     "Encoding any envelope, context, call transaction or spawn transaction gives the documented byte layout, and decoding these bytes gives the same value back and consumes exactly them, whatever follows. A truncated encoding is rejected. A field too long for its length prefix is refused, never cut or wrapped.",
     ["inputs"], "all field values; text and blobs of the lengths in the bounds",
     "tests encode a few constants; swapped or shortened fields show only for values whose bytes differ there",
     [C + "codec.rs", C + "ext.rs", H + "types/src/transaction"],
     [("field order and widths", C + "codec.rs"), ("length prefixes", C + "codec.rs")],
     ["encoded bytes", "decoded value", "reader position"])
prop("P07", "Decoding untrusted bytes gives a value or an error, never a crash",
     "For every byte string, decoding it as an envelope, context, transaction, spawn, template section, set of sections, template or receipt either returns a value or a parse error; it never panics and never reads outside the bytes. A value that is accepted can be encoded again and decodes to itself; for transactions, contexts, envelopes and template sections that encoding is byte for byte what was accepted.",
     ["inputs"], "all byte strings of the stated lengths, with bounded length claims",
     "tests decode what the encoder produced plus a few broken samples; nodes decode bytes from the network",
     [C + "codec.rs", C + "section", C + "receipt", C + "template.rs"],
     [("end-of-input errors", C + "ext.rs"), ("section dispatch", C + "section/decode.rs"), ("error receipts", C + "receipt/error.rs")],
     ["Result of Codec::decode"])
prop("P08", "Templates keep every section and every storage variable on the wire",
     "Encoding a template's sections in any order and decoding them gives equal sections in the documented layout. Decoding only some sections of interest, or skipping any of them, yields exactly the requested ones unchanged, and a template without its code, data or constructors section is rejected. A storage layout gives each variable its declared size at consecutive offsets; a size that the format cannot hold is refused.",
     ["inputs"], "all field values, all subsets and orders of sections within the bounds",
     "tests build one or two templates; skipping, ordering and size limits multiply",
     [C + "section", C + "template.rs", H + "layout/src", H + "types/src/template"],
     [("section previews and skipping", C + "section/decode.rs"), ("layout coding", C + "section/sections/data.rs"), ("variable offsets", H + "layout/src/fixed.rs")],
     ["decoded sections", "variable id, offset and size"])
prop("P09", "Receipts report every outcome exactly, in one encoding",
     "Encoding the receipt of any successful or failed deployment, spawn or call gives the documented byte layout, and decoding it gives the same outcome, gas, logs, return data, touched accounts and error. Equal receipts have equal encodings. An error message too long for its field is cut to its longest prefix that fits and is still text.",
     ["inputs", "configurations"], "all field values and error kinds within the bounds; every iteration order of the set of touched accounts",
     "tests round-trip a few receipts; nodes must agree on receipts byte for byte, and set iteration order differs per process",
     [C + "receipt", H + "types/src/receipt", H + "types/src/error.rs"],
     [("receipt coding", C + "receipt/call.rs"), ("error coding and truncation", C + "receipt/error.rs"), ("order of touched accounts", C + "receipt/touched_accounts.rs")],
     ["encoded bytes", "decoded receipt"])

S = H + "state/src/"
prop("P10", "Reads return the last value written, at present and at every past layer",
     "After any sequence of writes, checkpoints, rollbacks, commits and rewinds, reading an item of the global state gives the value last written to it and not discarded: a rollback discards exactly the changes since the last checkpoint, a rewind to a layer restores exactly the state that layer had and removes later layers, and a commit makes exactly the checkpointed changes the next layer. Reading at an earlier layer gives the value of that layer. Dirty changes are never committed or rewound over. Layers are numbered consecutively from 0.",
     ["inputs", "histories"], "all histories within the bounds, all values",
     "tests run a few fixed histories; interactions of rollback, rewind and overwritten values need particular sequences",
     [S + "storage.rs", S + "global_state.rs"],
     [("latest and historical reads", S + "storage.rs"), ("commit and rewind", S + "storage.rs"), ("layer parameter", S + "global_state.rs")],
     ["values read", "layer numbers", "has_uncommitted_changes"])
prop("P11", "Committed layers survive restarts and crashes, whole or not at all",
     "Opening an existing database gives exactly the committed layers, with the same contents, current layer and state root, and committing continues with the next layer. If the process stops at any point during a commit, a rewind, or the creation or opening of a database, then after opening it again either the whole operation has happened or none of it, and all earlier layers are intact. Genesis templates are stored once and are not replaced later.",
     ["inputs", "histories", "crash_points"], "every crash point between database statements within the bounds",
     "tests only use in-memory databases, which cannot be reopened, and never crash",
     [S + "storage.rs", S + "global_state.rs", S + "resources/schema.sql"],
     [("opening a database", S + "storage.rs"), ("incomplete layers", S + "storage.rs"), ("genesis", S + "global_state.rs")],
     ["values read after reopening", "current layer and root"])
prop("P12", "The state root is a function of the contents, and changes with them",
     "Two global states with the same contents have the same root, however the contents were reached: in whatever order, in how many checkpoints or layers, over whatever overwritten, rolled back or rewound values. Two states that differ in a value have different roots. The root of the current layer is the one its commit returned, and an empty layer keeps the root.",
     ["inputs", "histories"], "the histories in the bounds, all values",
     "tests compare roots of one or two fixed states; nodes compare roots of states reached in different ways",
     [S + "storage.rs"],
     [("changes fingerprint", S + "storage.rs"), ("layer fingerprint", S + "storage.rs")],
     ["State returned by commit and current_layer"])
prop("P13", "Each account variable and metadata item holds exactly what was last put in",
     "An account's variable of any size and position in its layout holds the bytes last written to it, zero before that, and integers are kept in little endian; a buffer too short for the variable is refused without effect. Writing a variable, balance or counter changes nothing else of this or another account. An account's name, template, balance and counter and a template's core and non-core sections read back as stored, now and at earlier layers, and what was never stored is reported as missing.",
     ["inputs", "histories"], "all values; sizes and positions in the bounds",
     "tests use a few layouts; segment boundaries and neighbours depend on sizes and offsets",
     [S + "account_storage.rs", S + "template_storage.rs"],
     [("variable segments", S + "account_storage.rs"), ("account metadata keys", S + "account_storage.rs"), ("template keys", S + "template_storage.rs")],
     ["getters of AccountStorage and TemplateStorage"])

RT = H + "runtime/src/"
prop("P14", "Transfers and executions conserve coins",
     "A transfer, ordered by the host or by a running account, moves exactly the amount from the source to the destination or is refused and moves nothing; the sum of all balances never changes, also when source and destination are the same account. It is refused when the source has too little, the destination does not exist or its balance would overflow. A running account can only spend its own coins. Increasing a balance adds exactly the amount or is refused.",
     ["inputs", "histories"], "all balances and amounts",
     "tests transfer one amount between two accounts; overflow, self-transfers and foreign sources need particular values",
     [RT + "vmcalls/transfer.rs", RT + "runtime/runtime.rs"],
     [("svm_transfer", RT + "vmcalls/transfer.rs"), ("Runtime::transfer and increase_balance", RT + "runtime/runtime.rs")],
     ["balances of all accounts", "success of the call"])
prop("P15", "Calls, spawns and deployments are all-or-nothing with exact receipts",
     "A successful call commits exactly the effects of the host calls made, as one new layer, and its receipt has the new state root, the logs, the return data and the touched accounts. A call that fails in any way - trap, refused host call, function missing, with a wrong signature or a constructor - leaves no effect, now or after later commits, while changes others have pending stay. The same holds for spawning: only constructors run, without enough gas nothing runs, a success creates exactly the account the receipt names. A deployment stores exactly the template at the address in its receipt iff its gas suffices. Templates with different code get different addresses, and so do accounts of different templates.",
     ["inputs", "histories", "fault_sequences"], "all values and endings within the bounds",
     "tests check receipts of a few successes; leftovers of a failed execution show up only in later commits",
     [RT + "runtime/runtime.rs", RT + "vmcalls/mod.rs", RT + "func_env.rs"],
     [("call and spawn", RT + "runtime/runtime.rs"), ("deploy", RT + "runtime/runtime.rs"), ("host functions", RT + "vmcalls/mod.rs")],
     ["receipts", "storage of all accounts", "layer and state root"])
prop("P16", "Host calls touch exactly the guest memory they are asked to",
     "The calldata of a call is placed, unchanged, in the block the guest's allocator returned, and its reported offset and length match; nothing else in the guest's memory changes. Log entries, stored bytes, transfer addresses and return data are exactly the guest's bytes at the given offset and length, loading writes exactly the variable's bytes there. Whatever does not lie inside of the guest's memory is refused. Blocks handed out by the host's allocator lie inside of the memory and do not overlap.",
     ["inputs"], "offsets at the edges of memory and address space, all bytes",
     "tests use small offsets inside of the memory",
     [RT + "vmcalls/storage.rs", RT + "vmcalls/logs.rs", RT + "vmcalls/alloc.rs", RT + "vmcalls/calldata.rs", RT + "runtime/runtime.rs"],
     [("store and load", RT + "vmcalls/storage.rs"), ("allocation", RT + "vmcalls/alloc.rs"), ("calldata and return data", RT + "runtime/runtime.rs")],
     ["guest memory", "receipts"])
prop("P17", "Verification and allocation code cannot reach the storage",
     "While svm_verify runs, and while svm_alloc runs to make room for input data, every host call that reads or writes variables or moves coins is refused; when allocation is over the call itself has full access again. A verification gets exactly the transaction's verify data, never runs the called function, reports success iff svm_verify does, and changes neither state nor layers.",
     ["inputs", "histories"], "every host call in both phases",
     "tests never try a forbidden access in these phases",
     [RT + "func_env.rs", RT + "runtime/runtime.rs"],
     [("access modes", RT + "func_env.rs"), ("verify and call_alloc", RT + "runtime/runtime.rs")],
     ["receipts", "storage", "layer and state root"])

FF = H + "runtime-ffi/src/"
prop("P18", "C API: results own their memory once, handles live until destroyed",
     "Every result of the C API is either plain success, a receipt or an error with a message, owns its bytes, and freeing, copying or unwrapping it frees them exactly once. A runtime handle works from its creation until it is destroyed and never again; unknown and destroyed handles give an error result; a destroyed runtime is freed completely, and what it committed to its path is found by the next runtime at that path and no other. The number of runtimes is exact. A failed creation leaves later ones unaffected.",
     ["inputs", "histories"], "all result contents up to the length bound, all sequences of creations, uses and destructions within the bound",
     "tests create runtimes and drop results; double frees and leaks go unnoticed, stale handles and failing creations are not tried",
     [FF + "result.rs", FF + "resource_tracker.rs", FF + "c_api.rs"],
     [("drop of a result", FF + "result.rs"), ("table of handles", FF + "resource_tracker.rs"), ("svm_init and svm_runtime_create", FF + "c_api.rs")],
     ["results", "svm_runtimes_count", "allocated memory"])
prop("P19", "C API: every function does and reports exactly what the runtime does",
     "Deploy, spawn, verify, call and validation through the C API run the same code, change the same state and return the same receipt bytes or refusal as the runtime's own functions given the decoded arguments; undecodable arguments and internal failures become error results without effect and leave the runtime usable. Account data (address, balance, 128-bit counter, template), balance changes, transfers, commits, rewinds, layer information and the report of uncommitted changes are exact after every sequence of operations.",
     ["inputs", "histories"], "all argument values; all operation sequences within the bounds",
     "tests run one deploy-spawn-call sequence with fixed values and never look at failures, wide counters or refused rewinds",
     [FF + "c_api.rs", RT + "runtime/runtime.rs"],
     [("svm_runtime_action and svm_validate", FF + "c_api.rs"), ("svm_get_account, svm_transfer, svm_rewind, svm_commit", FF + "c_api.rs"), ("catch_unwind_or_fail", FF + "c_api.rs")],
     ["results and receipts", "svm_get_account", "svm_layer_info"])
GA, PR = "crates/host/gas/src/", "crates/host/program/src/"
prop("P20", "Fixed gas: a function costs what its dearest execution costs",
     "For every program without loops, indirect calls and recursion, the price of each function is the largest total price of instructions over all ways through it, where calls cost what the called function or import costs and structured jumps are free; computing it never fails. A program is refused iff some function contains a loop or an indirect call, or calls itself directly or through others.",
     ["programs", "inputs"], "all functions and call graphs within the bounds, all instruction and import prices",
     "tests price a dozen hand-written functions with one price per instruction; wrong edges in the control-flow graph only show where the dearest way uses them",
     [GA + "cfg", GA + "graph", GA + "pricing", GA + "call_graph", GA + "validation.rs"],
     [("control-flow graph", GA + "cfg/builder.rs"), ("heaviest path", GA + "graph/weight.rs"), ("order of functions", GA + "graph/sort.rs"), ("loops and cycles", GA + "validation.rs")],
     ["FuncPrice::get", "validate_wasm"])
prop("P21", "Validation: only integer code with svm_alloc and svm_verify is accepted",
     "Reading a module gives its functions, imports and exports with their WebAssembly numbers, or an error; no bytes make it crash. A module with an instruction that works on floating-point values is refused as such, in whichever function it is. With exports required, a module is accepted only if it exports its own functions svm_alloc of type (i32) -> i32 and svm_verify of type () -> i32.",
     ["inputs", "programs"], "all opcodes, exports, imports and byte strings within the bounds",
     "tests use a few valid modules and one of each kind of mistake; there are some seventy floating-point opcodes",
     [PR + "lib.rs", PR + "program.rs", PR + "import.rs", PR + "exports.rs"],
     [("opcode filter", PR + "lib.rs"), ("signatures of exports", PR + "program.rs"), ("numbers of functions", PR + "program.rs")],
     ["Program::new", "Program::imports", "Program::exports"])
prop("P22", "Gas is spent iff there is enough of it, and ranges stay sound",
     "A limit of gas minus an amount is the exact difference if the limit is at least the amount, and out of gas otherwise; an absent limit is above every amount and stays absent. Comparison, addition and mapping agree with the numbers. The range of one of two programs spans both ranges exactly, that of both programs is the sum of their ends. Deployments and spawns cost 1000 for each byte of their message.",
     ["inputs"], "all 64-bit values whose sums fit",
     "tests use small constants; equality and order around the limit, zero and absence are not sampled",
     ["crates/host/types/src/gas/mod.rs", GA + "gas.rs", GA + "lib.rs"],
     [("subtraction and order", "crates/host/types/src/gas/mod.rs"), ("ranges", GA + "gas.rs")],
     ["Gas", "svm_gas::Gas", "svm_gas::transaction"])
CJ = "crates/host/codec/src/api/"
prop("P23", "JSON to binary: values are encoded iff they fit their types, and come back",
     "Given a document, the client API encodes input data exactly when every value fits the type declared for it, and the bytes are those guests read as the same values: no number is wrapped or truncated, no value dropped or added. A call or spawn is encoded iff every field is present and valid, the binary message has exactly these fields, and decoding it gives the document back. Everything else, including bytes that are no message or hold foreign input data, is reported as an error; nothing makes the API panic.",
     ["inputs"], "all documents and byte strings within the bounds",
     "tests encode one document of each kind and two or three numbers per type; boundaries, mismatches of type and value, missing fields and undecodable bytes are not tried",
     [CJ + "json/inputdata.rs", CJ + "json/call.rs", CJ + "json/spawn.rs", CJ + "json/serde_types.rs"],
     [("values and types", CJ + "json/inputdata.rs"), ("calls", CJ + "json/call.rs"), ("spawns", CJ + "json/spawn.rs")],
     ["encode_inputdata, decode_inputdata", "encode_call, decode_call", "encode_spawn, decode_spawn"])
prop("P24", "Receipts shown as JSON and client buffers are exact",
     "Every receipt, whatever its outcome, gas, logs, return data and touched accounts, is shown as JSON with exactly what it holds; a failure is shown under its own name with the addresses, function and message it carries. Through the buffer interface every function gives a new buffer with the success marker and exactly the bytes the JSON function returns, or the error marker and a message, for any content of the given buffer, text or not; buffers have the length asked for, the caller's one is left as it was, and each can be freed once without touching other memory.",
     ["inputs"], "all receipts and buffer contents within the bounds",
     "tests show five receipts and exchange three documents; other failures, gas beyond 63 bits and logs or buffers that aren't text are not tried",
     [CJ + "json/receipt.rs", CJ + "json/mod.rs", CJ + "wasm/mod.rs", CJ + "wasm/buffer.rs"],
     [("receipts", CJ + "json/receipt.rs"), ("gas and logs", CJ + "json/mod.rs"), ("buffers", CJ + "wasm/buffer.rs")],
     ["decode_receipt", "wasm_alloc, wasm_free, wasm_encode_*, wasm_decode_*"])

Q = "crates/host/query/src/"
prop("P25", "Storage queries show each variable exactly as its schema describes it",
     "A query gives one result per request, in the requests' order: the value that the storage holds for the variable, read by the type its schema gives it (a boolean; a signed or unsigned big-endian integer of up to eight bytes; a balance; bytes, addresses and public keys as hexadecimal text). A variable that the schema does not have, that cannot be read, or whose data does not fit its type or length is reported as missing; no schema, request or data makes a query panic.",
     ["inputs"], "all schemas, requests and storage contents within the bounds",
     "tests render a handful of values; sign extension of odd sizes, data that does not fit its schema and mixed requests are not tried",
     [Q + "render.rs", Q + "query.rs", Q + "schema.rs"],
     [("values", Q + "render.rs"), ("requests", Q + "query.rs"), ("schema", Q + "schema.rs")],
     ["StorageQuery::run", "StorageReader::read_var", "JsonVarRenderer", "Schema"])
prop("P26", "Crafted deployments have the layout and constructors of the contract",
     "From the metadata which the SDK emits for a contract, the command line tool derives a data section that has, for every storage field and every element of an array field, exactly one variable with the id and size the metadata gives and lying right after the previous one, and a constructors section listing exactly the functions marked as constructors. The accessors generated for the contract use these same variable ids, so that what a contract stores lies in the variable that its template declares for it.",
     ["inputs", "programs"], "all metadata documents within the bounds, and all values stored through the accessors",
     "tests compare the emitted metadata with examples; no test takes it through the command line tool or compares it with what accessors do",
     ["crates/host/cli/src/subcmd_craft_deploy/meta.rs", "crates/wasm/sdk-macros/src/struct/storage.rs"],
     [("sections", "crates/host/cli/src/subcmd_craft_deploy/meta.rs"), ("metadata", "crates/wasm/sdk-macros/src/json.rs")],
     ["svm-cli craft-deploy", "#[template]"])

prop("P27", "Database errors are reported, lose no changes, and can be retried",
     "When a database statement fails during a checkpoint, a commit, a rewind, or a read or change of an account, the operation reports an error instead of panicking, and the global state stays as it was: all layers, checkpointed changes and dirty changes are still there and are read as before. Trying again succeeds once the database works, and leads to the same contents and the same state root as if nothing had failed.",
     ["fault_sequences", "inputs", "histories"], "any one failing statement of any operation, all contents within the bounds",
     "tests never let a statement fail; the effects of a half done commit show only when it is repeated",
     [H + "state/src/storage.rs", H + "state/src/global_state.rs"],
     [("checkpoint and commit", H + "state/src/storage.rs"), ("rewind", H + "state/src/global_state.rs")],
     ["GlobalState::checkpoint, commit, rewind, current_layer", "AccountStorage"])

# more properties are appended by the groups below


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no guarded hooks: the harness crates use the public API of /repo's crates", source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                          technique=TECH, level="model_checking", level_note=p["_note"] or NOTE) for p in P if not p["_na"]],
             not_applicable=[dict(property=p["id"], reason=p["_na"]) for p in P if p["_na"]],
             notes="See DESIGN.md. Checks build the engine and the harness on demand; setup_cmd only warms both.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


if __name__ == "__main__":
    main()
