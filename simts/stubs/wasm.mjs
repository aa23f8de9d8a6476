// Stand-in for the conversion in WebAssembly; the real one is simulated by simrs.
export const convert_math = (input, spec) => window.$sim.convert(input, spec);
