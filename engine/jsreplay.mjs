// usage: jsreplay.mjs <run.mjs> <request.json> <result.json>
// Runs the real run-time library under node with the wasm module replaced by one library call.
import {readFileSync, writeFileSync} from "fs";
import {pathToFileURL} from "url";

const [runner, reqPath, resPath] = process.argv.slice(2);
const req = JSON.parse(readFileSync(reqPath, "utf8"));
const res = {};
const done = () => writeFileSync(resPath, JSON.stringify(res));
WebAssembly.instantiate = async (buf, imports) => {
    const m = new Uint8Array(imports.runtime.memory.buffer);
    for (const [a, b] of req.init) m[a] = b;
    return {instance: {exports: {main: (argc, argv) => {
        res.argc = argc;
        res.argv = argv;
        res.before = Array.from(m.slice(0, 8192));
        if (req.fn) {
            for (const [a, b] of req.mem) m[a] = b;
            res.before = Array.from(m.slice(0, 8192));
            try {
                imports.stdlib[req.fn]();
            } catch (e) {
                res.threw = `${e}`;
            }
        }
        res.after = Array.from(m.slice(0, 8192));
        done();
        return req.code;
    }}}};
};
process.argv = [process.argv[0], runner, ...req.args];
await import(pathToFileURL(runner).href);
