const st = (ms: number, v?: any) => new Promise(r => globalThis.setTimeout(() => r(v), ms));
export { st as setTimeout };
export default { setTimeout: st };
