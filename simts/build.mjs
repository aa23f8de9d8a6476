// Bundles the browser packages of /repo's working tree, with stand-ins for the
// libraries and services that are not part of it, and the simulator itself.
import { createRequire } from "node:module";
import { renameSync, mkdirSync } from "node:fs";
import path from "node:path";

const { build } = createRequire("/opt/veriftools/node/package.json")("esbuild");
const here = import.meta.dirname;
const [repo = "/repo", out = "/verif/target/simts"] = process.argv.slice(2);
const dom = repo + "/packages/typst-dom/src";
const web = repo + "/packages/mitex-web/src";
mkdirSync(out, { recursive: true });

const STUBS = [
  [/^vanjs-core$/, "van"],
  [/^mitex-wasm/, "wasm"],
  [/^(@isomorphic-git\/|isomorphic-git)/, "remote"],
  [/^(@codemirror\/|@grammarly\/)/, "codemirror"],
  [/^@myriaddreamin\/|\.css$/, "none"],
];
const stubs = {
  name: "stubs",
  setup(b) {
    b.onResolve({ filter: /^typst-dom\// }, (a) => ({ path: path.join(dom, a.path.slice(10).replace(/\.mjs$/, ".mts")) }));
    for (const [filter, name] of STUBS) b.onResolve({ filter }, () => ({ path: name, namespace: "stub" }));
    // through require, so that an import a stand-in lacks is undefined and no build error
    b.onLoad({ filter: /.*/, namespace: "stub" }, (a) => ({
      contents: a.path === "none" ? "module.exports = {};" : `const m = require(${JSON.stringify(path.join(here, "stubs", a.path + ".mjs"))});
module.exports = m.default ? Object.assign(m.default, m, { default: m.default, __esModule: true }) : m;`,
      resolveDir: here,
    }));
  },
};

async function bundle(name, options) {
  const file = path.join(out, name);
  await build({ bundle: true, logLevel: "error", target: "es2022", format: "iife", outfile: file + ".new", ...options });
  renameSync(file + ".new", file);
}

await Promise.all([
  bundle("typst-dom.js", {
    stdin: { contents: `export { TypstDocument, RenderMode, PreviewMode } from "${dom}/typst-doc.mjs";`, resolveDir: dom, loader: "ts" },
    globalName: "__subject", plugins: [stubs],
  }),
  bundle("typst-tools.js", { entryPoints: [web + "/tools/typst.ts"], plugins: [stubs] }),
  bundle("loader.js", { entryPoints: [web + "/loader.mjs"], plugins: [stubs] }),
  // the loader starts before the modules that wait for WebAssembly
  bundle("converter.js", {
    entryPoints: [web + "/main.ts"],
    plugins: [{ name: "loader", setup: (b) => b.onResolve({ filter: /loader\.mjs$/ }, () => ({ path: "none", namespace: "stub" })) }, stubs],
  }),
  bundle("underleaf.js", { entryPoints: [web + "/tools/underleaf.ts"], plugins: [stubs] }),
  bundle("sim.mjs", { entryPoints: [path.join(here, "main.mjs")], platform: "node", format: "esm", target: "node22" }),
]);
