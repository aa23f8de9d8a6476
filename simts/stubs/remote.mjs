// Stand-ins for the file system in the browser and the remote repository.
export default class LightningFS {
  constructor() {
    this.files = new Map();
    window.$sim.fs = this;
    this.promises = {
      readFile: (p) => window.$sim.later("fs", () => {
        if (!this.files.has(p)) throw new Error("ENOENT: " + p);
        return new Uint8Array(this.files.get(p));
      }),
      readdir: (d) => window.$sim.later("fs", () => [...this.files.keys()].filter((k) => k.startsWith(d + "/")).map((k) => k.slice(d.length + 1))),
    };
  }
}
const call = (what) => (o) => window.$sim.git(what, o);
export const fetch = call("fetch");
export const clone = call("clone");
export const setConfig = call("setConfig");
export const checkout = call("checkout");
export const request = call("request");
