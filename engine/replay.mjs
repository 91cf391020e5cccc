// usage: replay.mjs <runtime dir> <module.wasm> <inputs.json>
// Runs the real module under node: the repository's memory set-up and frame protocol,
// with strtol/strtoul answering from the given inputs and printf printing exactly
// (doubles as their bit patterns).
import {appendFileSync, readFileSync, writeSync} from "fs";
import {join} from "path";
import {pathToFileURL} from "url";

const [rt, wasmPath, inPath] = process.argv.slice(2);
const imp = (p) => import(pathToFileURL(join(rt, p)).href);
const {strlen, strstr} = await imp("stdlib/string.mjs");
const {put_args_into_memory} = await imp("init_memory.mjs");
const {inputs, args} = JSON.parse(readFileSync(inPath, "utf8"));
const memory = new WebAssembly.Memory({initial: 1});
const dv = () => new DataView(memory.buffer);
const fp = () => dv().getUint32(0, true);
let k = 0;
const put = (bytes) => {
    const b = Buffer.from(bytes);
    for (let o = 0; o < b.length;) o += writeSync(1, b, o);
};
const puts = (s) => put(Buffer.from(s, "latin1"));
const input = () => {
    if (k >= inputs.length) { puts("EXTRA INPUT"); process.exit(98); }
    dv().setBigUint64(fp() + 4, BigInt(inputs[k++]), true);
};
const u8 = (a) => dv().getUint8(a);
const printf = () => {
    let f = dv().getUint32(fp() + 8, true), p = fp() + 12;
    for (; u8(f) !== 0; f++) {
        let c = String.fromCharCode(u8(f));
        if (c !== "%") { put([u8(f)]); continue; }
        c = String.fromCharCode(u8(++f));
        if (c === "%") puts("%");
        else if (c === "d" || c === "i") { puts(`${dv().getInt32(p, true)}`); p += 4; }
        else if (c === "u") { puts(`${dv().getUint32(p, true)}`); p += 4; }
        else if (c === "c") { put([u8(p)]); p += 4; }
        else if (c === "s") { for (let q = dv().getUint32(p, true); u8(q) !== 0; q++) put([u8(q)]); p += 4; }
        else if (c === "f") {
            const d = dv().getFloat64(p, true);
            puts("f" + (Number.isNaN(d) ? 0x7ff8000000000000n : dv().getBigUint64(p, true)));
            p += 8;
        } else if (c === "h") {
            c = String.fromCharCode(u8(++f));
            puts(`${c === "u" ? dv().getUint16(p, true) : dv().getInt16(p, true)}`); p += 4;
        } else if (c === "l") {
            c = String.fromCharCode(u8(++f));
            puts(`${c === "u" ? dv().getBigUint64(p, true) : dv().getBigInt64(p, true)}`); p += 8;
        }
    }
    dv().setInt32(fp() + 4, 0, true);
};
const stdlib = {printf, strtol: input, strtoul: input, strlen: strlen(memory), strstr: strstr(memory),
    log_stack_ptr: () => {}};
if (process.env.VP_TRACE) {
    for (const k of Object.keys(stdlib)) {
        const f = stdlib[k];
        if (k !== "log_stack_ptr") stdlib[k] = () => {
            appendFileSync(process.env.VP_TRACE, `${k} ${fp()} ${dv().getUint32(8, true)}\n`);
            return f();
        };
    }
}
const module = await WebAssembly.instantiate(readFileSync(wasmPath), {runtime: {memory}, stdlib});
const {argc, argv} = put_args_into_memory(args, memory);
const code = module.instance.exports.main(argc, argv);
process.exitCode = code & 255;
