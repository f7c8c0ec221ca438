// Persistent execution host: reads one JSON job per line, runs the module against the
// repository's own runtime (runtime/*.mjs of the tree under observation) and reports what the
// monitors saw.  Logical-step budgets (mon.tick) decide non-termination, never the wall clock.
import { readFileSync } from "fs";
import { createInterface } from "readline";
import { pathToFileURL } from "url";
import { parse, instrument } from "./wasmmon.mjs";

const RT = process.env.C2W_RUNTIME;
const imp = (f) => import(pathToFileURL(`${RT}/${f}`).href);
const { printf } = await imp("stdlib/stdio.mjs");
const { put_args_into_memory } = await imp("init_memory.mjs");
const { strtol, strtoul } = await imp("stdlib/stdlib.mjs");
const { strlen, strstr } = await imp("stdlib/string.mjs");

const realWrite = process.stdout.write.bind(process.stdout);
class StepLimit extends Error { }
class OutLimit extends Error { }

function run(job) {
    const res = { id: job.id };
    let bytes;
    try { bytes = readFileSync(job.wasm); } catch (e) { res.err = "nofile: " + e.message; return res; }
    res.size = bytes.length;
    res.valid = WebAssembly.validate(bytes);
    if (!res.valid) {
        try { new WebAssembly.Module(bytes); } catch (e) { res.err = "invalid module: " + e.message; }
        return res;
    }
    let m;
    try { m = parse(bytes); } catch (e) { res.err = "unparsable: " + e.message; return res; }
    res.nfuncs = m.funcs.length;
    res.imports = m.imports.map(i => `${i.mod}.${i.name}:${i.kind}${i.kind === 2 ? ":" + i.min + (i.max === undefined ? "" : "-" + i.max) : ""}`);
    res.exports = m.exports.map(e => `${e.name}:${e.kind}`);
    const sig = (t) => t === undefined ? "?" : t.params.map(x => x.toString(16)).join(",") + ">" + t.results.map(x => x.toString(16)).join(",");
    res.isigs = Object.fromEntries(m.imports.filter(i => i.kind === 0).map(i => [`${i.mod}.${i.name}`, sig(m.types[i.type])]));
    res.esigs = Object.fromEntries(m.exports.filter(e => e.kind === 0).map(e => [e.name, e.index < m.nimp ? "import" : sig(m.types[m.funcs[e.index - m.nimp]])]));
    res.sections = m.sections.map(s => s.id);
    res.datas = m.data.map(d => [d.off, d.len]);
    res.ncodes = m.codes.length;
    if (job.norun) return res;

    const memory = new WebAssembly.Memory({ initial: 1 });
    const mem = new DataView(memory.buffer);
    const bytesView = new Uint8Array(memory.buffer);
    const FP = () => mem.getUint32(0, true), SP = () => mem.getUint32(8, true);
    let ticks = 0; const maxTicks = job.maxTicks || 5e6;
    const out = []; let outLen = 0;
    const viol = []; const violSeen = new Set();
    const bad = (k, d) => { if (!violSeen.has(k)) { violSeen.add(k); viol.push(`${k}: ${d}`); } };
    let calls = 0, hcalls = 0, loads = 0, stores = 0, peakSP = 0, depth = 0, maxDepth = 0, minStack = 0, staticEnd = 0;
    const callStack = []; const edges = new Set();
    let frameless = 0;
    const prof = [];
    const cells = new Set();
    // with profiling: every change of the stack pointer is logged before anything else happens
    let lastLogged = 0, nlogs = 0; const logIdx = m.imports.filter(i => i.kind === 0).findIndex(i => i.name === "log_stack_ptr");
    const profCheck = (w) => { const sp = SP(); if (sp !== lastLogged) { bad("unlogged-stack-pointer", `${w}: stack pointer ${sp}, last logged ${lastLogged}`); lastLogged = sp; } };
    // shadow of the live frames: [lo, hi) of each active call
    const mon = {
        tick: () => { if (job.prof) profCheck("step"); if (++ticks > maxTicks) throw new StepLimit(); },
        enter: (f) => {
            if (job.prof) profCheck(`call f${f}`);
            calls++; depth++; if (depth > maxDepth) maxDepth = depth;
            const fp = FP(), sp = SP();
            if (sp > peakSP) peakSP = sp;
            const caller = callStack.length ? callStack[callStack.length - 1] : null;
            edges.add((caller ? caller.f : -1) + ">" + f);
            const link = fp + 4 <= 65536 ? mem.getUint32(fp, true) : -1;
            const e = { f, fp, sp, link };
            if (sp < fp + 4) bad("frame-order", `call f${f}: stack pointer ${sp} below frame ${fp}`);
            if (callStack.length && fp < caller.fp) bad("frame-below-caller", `call f${f}: frame ${fp} below caller frame ${caller.fp}`);
            if (callStack.length && fp !== caller.fp && link !== caller.fp) bad("frame-link", `call f${f}: saved frame pointer ${link}, caller frame ${caller.fp}`);
            if (callStack.length && fp === caller.fp) frameless++;
            // memory above the stack pointer holds nothing a program without undefined behaviour can see
            // (main is exempt: global objects may still be waiting for their zero-initialised storage)
            if (job.poison && callStack.length) bytesView.fill(job.poison, sp, sp + 3072);
            callStack.push(e);
        },
        exit: (f) => {
            if (job.prof) profCheck(`return f${f}`);
            depth--;
            const e = callStack.pop();
            const fp = FP();
            if (!e || e.f !== f) bad("unbalanced", `return from f${f}`);
            else {
                if (fp !== e.fp) bad("fp-not-restored", `after f${f}: frame pointer ${fp}, at call ${e.fp}`);
                else if (mem.getUint32(fp, true) !== e.link) bad("frame-link-clobbered", `after f${f}: saved frame pointer ${mem.getUint32(fp, true)}, was ${e.link}`);
            }
        },
        hcall: (f) => { hcalls++; if (job.prof && f !== logIdx) profCheck(`host call f${f}`); const sp = SP(); if (sp > peakSP) peakSP = sp; callStack.push({ f, fp: FP(), sp, link: 0, host: 1 }); },
        hret: (f) => { const e = callStack.pop(); if (!e || e.f !== f || !e.host) bad("unbalanced", `host return f${f}`); else if (FP() !== e.fp || SP() !== e.sp) bad("host-moved-stack", `after host f${f}`); },
        ld: (addr, os) => {
            loads++; { const sp = mem.getUint32(8, true); if (sp > peakSP) peakSP = sp; }
            if (job.prof) profCheck("load");
            const a = (addr >>> 0) + Math.floor((os >>> 0) / 16), s = os & 15;
            if (a < 12 && !((a === 0 || a === 4 || a === 8) && s === 4)) bad("reserved-read", `addr ${a} size ${s}`);
            return addr;
        },
        st: (addr, os) => {
            stores++; { const sp = mem.getUint32(8, true); if (sp > peakSP) peakSP = sp; }
            if (job.prof) profCheck("store");
            const a = (addr >>> 0) + Math.floor((os >>> 0) / 16), s = os & 15;
            if (a < 12 && !((a === 0 || a === 4 || a === 8) && s === 4)) bad("reserved-write", `addr ${a} size ${s}`);
            for (const d of roData) if (a < d[1] && a + s > d[0]) bad("literal-write", `store to string storage at ${a}`);
            if (job.cells) cells.add(a);
            return addr;
        },
    };
    let roData = [];
    const imports = {
        runtime: { memory },
        stdlib: {
            printf: printf(memory), strtol: strtol(memory), strtoul: strtoul(memory),
            strlen: strlen(memory), strstr: strstr(memory),
            log_stack_ptr: () => { const sp = SP(); if (sp > peakSP) peakSP = sp; if (prof.length < 200000) prof.push(sp); lastLogged = sp; nlogs++; },
        },
        mon,
    };
    let modBytes = bytes;
    if (!job.plain) {
        const r = instrument(m, { mem: job.mem !== false });
        modBytes = r.bytes; res.stats = r.stats;
    }
    let instance;
    try { instance = new WebAssembly.Instance(new WebAssembly.Module(modBytes), imports); }
    catch (e) { res.err = "instantiate: " + e.message; return res; }
    const main = instance.exports.main;
    if (typeof main !== "function") { res.err = "no exported main"; return res; }
    // initial memory image of string literals: active data segments above the pointer words
    const initial = new Uint8Array(memory.buffer).slice();
    const sp0 = SP();
    res.sp0 = sp0;
    const dataRegions = m.data.map(d => [d.off, d.off + d.len]);
    if (job.literals !== false) roData = dataRegions.filter(d => d[0] >= 12 && d[1] <= sp0);
    const { argc, argv } = put_args_into_memory(["prog", ...(job.args || [])], memory);
    staticEnd = SP();
    res.data = m.data.map(d => [d.off, d.len]);
    res.argv = argv; res.spMain = staticEnd;
    peakSP = staticEnd; lastLogged = staticEnd;
    process.stdout.write = (s) => { s = typeof s === "string" ? Buffer.from(s, "utf8") : Buffer.from(s); outLen += s.length; if (outLen > 400000) throw new OutLimit(); out.push(s); return true; };
    const log = console.log; console.log = (...a) => { process.stdout.write(a.join(" ") + "\n"); };
    try {
        const code = main(argc, argv);
        res.ret = code; res.exit = code === undefined ? 0 : (code & 0xff);
    } catch (e) {
        if (e instanceof StepLimit) res.trap = "steplimit";
        else if (e instanceof OutLimit) res.trap = "outlimit";
        else if (e instanceof RangeError && /call stack/.test(e.message)) res.trap = "hoststack";
        else res.trap = `${e.name}: ${e.message}`;
    } finally { process.stdout.write = realWrite; console.log = log; }
    if (!res.trap) {
        if (callStack.length) bad("unbalanced", `${callStack.length} calls open at exit`);
        const endMem = new Uint8Array(memory.buffer);
        for (const d of roData) for (let i = d[0]; i < d[1]; i++) if (endMem[i] !== initial[i]) { bad("literal-changed", `string storage byte ${i}`); break; }
        res.fpEnd = FP(); res.spEnd = SP();
    }
    res.out = Buffer.concat(out).toString("latin1");
    res.viol = viol;
    res.mon = { ticks, calls, hcalls, loads, stores, peakSP, maxDepth, edges: edges.size, frameless };
    res.nlogs = nlogs; if (job.prof) { res.prof = prof; }
    return res;
}

const rl = createInterface({ input: process.stdin });
for await (const line of rl) {
    if (!line.trim()) continue;
    const job = JSON.parse(line);
    let res;
    try { res = run(job); } catch (e) { process.stdout.write = realWrite; res = { id: job.id, harness: String(e.stack || e) }; }
    realWrite(JSON.stringify(res) + "\n");
}
