// Runs liblc3.wasm for wasm/proxy.cc: one request at a time on stdin, one answer on stdout.
// The context, input and output of a call are laid in linear memory between painted guards.
const fs = require('fs');
const wasm = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2]))).exports;
const QUERIES = ['lc3_hr_frame_samples', 'lc3_frame_samples', 'lc3_hr_frame_bytes', 'lc3_frame_bytes', 'lc3_hr_frame_block_bytes', 'lc3_frame_block_bytes',
    'lc3_hr_resolve_bitrate', 'lc3_resolve_bitrate', 'lc3_hr_delay_samples', 'lc3_delay_samples', 'lc3_hr_encoder_size', 'lc3_encoder_size', 'lc3_hr_decoder_size', 'lc3_decoder_size'];
const GUARD = 64, PAINT = 0xa7, ROOM = 8 << 20;
const base = wasm.memory.grow(Math.ceil((ROOM + 65536) / 65536)) * 65536;
const mem = new Uint8Array(wasm.memory.buffer);
const head = Buffer.alloc(64), H = new Int32Array(head.buffer, head.byteOffset, 16);
const ans = Buffer.alloc(16), A = new Int32Array(ans.buffer, ans.byteOffset, 4);
function read(buf, off, n) { while (n) { const k = fs.readSync(0, buf, off, n, null); if (!k) process.exit(0); off += k; n -= k; } }
function write(buf, off, n) { while (n) { const k = fs.writeSync(1, buf, off, n); off += k; n -= k; } }
function call(f, ...a) { return wasm[f](...a) | 0; }
let parts, cursor;
function place(len, low) {      // low: the low bits of the caller's address
    const at = cursor, p = ((at + GUARD + 15) & ~15) + (low & 7), e = p + len;
    mem.fill(PAINT, at, p); mem.fill(PAINT, e, e + GUARD); parts.push([at, p, e]); cursor = e + GUARD;
    return p;
}
function guards() { for (const [at, p, e] of parts) {
    for (let i = at; i < p; i++) if (mem[i] != PAINT) return 1;
    for (let i = e; i < e + GUARD; i++) if (mem[i] != PAINT) return 2; } return 0; }
for (;;) {
    read(head, 0, 64);
    const [op, a0, a1, a2, a3, ctxlen, inlen, outlen, low, inlow, outlow] = H;
    parts = []; let ret;
    if (op < QUERIES.length) { ret = call(QUERIES[op], a0, a1, a2, a3, ctxlen); A[0] = ret; A[1] = 0; write(ans, 0, 16); continue; }
    cursor = base;
    const c = ctxlen >= 0 ? place(ctxlen, low) : 0, pi = inlen >= 0 ? place(inlen, inlow) : 0, po = outlen >= 0 ? place(outlen, outlow) : 0;
    if (ctxlen > 0) read(mem, c, ctxlen); if (inlen > 0) read(mem, pi, inlen); if (outlen > 0) read(mem, po, outlen);
    switch (op) {
    case 20: ret = call('lc3_hr_setup_encoder', a0, a1, a2, a3, c); break;
    case 21: ret = call('lc3_setup_encoder', a1, a2, a3, c); break;
    case 22: ret = call('lc3_hr_setup_decoder', a0, a1, a2, a3, c); break;
    case 23: ret = call('lc3_setup_decoder', a1, a2, a3, c); break;
    case 24: wasm.lc3_encoder_disable_ltpf(c); ret = 0; break;
    case 25: ret = call('lc3_encode', c, a0, pi, a1, a2, po); break;
    case 26: ret = call('lc3_decode', c, pi, a2, a0, po, a1); break;
    default: process.exit(3);
    }
    if (op <= 23) ret = ret == 0 ? 0 : ret == c ? 1 : 2;
    A[0] = ret; A[1] = guards(); write(ans, 0, 16);
    if (ctxlen > 0) write(mem, c, ctxlen); if (inlen > 0) write(mem, pi, inlen); if (outlen > 0) write(mem, po, outlen);
}
