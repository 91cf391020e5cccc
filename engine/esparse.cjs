// usage: esparse.cjs FILE...   prints {file: ESTree} as JSON (bigints and regexes as strings)
const acorn = require('/opt/veriftools/node/node_modules/acorn');
const fs = require('fs');
const out = {};
for (const f of process.argv.slice(2)) {
    out[f] = acorn.parse(fs.readFileSync(f, 'utf8'), {ecmaVersion: 'latest', sourceType: 'module', allowHashBang: true});
}
process.stdout.write(JSON.stringify(out, (k, v) => typeof v === 'bigint' ? undefined : v));
