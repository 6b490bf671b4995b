// Runs the script named on the command line and the calls that arrive on stdin (see js/js.go).
'use strict';
var fs = require('fs'), glob = {};
(new Function('$global', fs.readFileSync(process.argv[2], 'utf8')))(glob);

function read(n) {
    var b = Buffer.alloc(n), o = 0;
    while (o < n) {
        var r;
        try {
            r = fs.readSync(0, b, o, n - o, null);
        } catch (e) {
            if (e.code === 'EAGAIN') continue;
            throw e;
        }
        if (r === 0) process.exit(0);
        o += r;
    }
    return b;
}
function write(b) {
    for (var o = 0; o < b.length;) {
        try {
            o += fs.writeSync(1, b, o, b.length - o);
        } catch (e) {
            if (e.code !== 'EAGAIN') throw e;
        }
    }
}
function u32() { return read(4).readUInt32LE(0); }
function str() { return read(u32()).toString('utf8'); }
function n32(n) { var b = Buffer.alloc(4); b.writeUInt32LE(n >>> 0, 0); return b; }

for (var turn = 0;; turn++) {
    var obj = str(), name = str(), n = u32(), args = [], slices = [], outs = [];
    for (var i = 0; i < n; ++i) {
        var k = String.fromCharCode(read(1)[0]);
        if (k === 'b') {
            var d = read(u32());
            // a slice that shares its array with others is a view with an offset and neighbours
            // (only the destination of the rows is one: it comes first, and is written to)
            var pad = name === 'decodePackBits' && i === 0 ? 1 + turn % 7 : 0;
            var store = new Uint8Array(d.length + 2 * pad).fill(0xa5);
            var v = store.subarray(pad, pad + d.length);
            v.set(d);
            slices.push([store, v, pad]);
            args.push(v);
        } else if (k === 'u') {
            var l = new Uint32Array(u32());
            for (var j = 0; j < l.length; ++j) l[j] = u32();
            args.push(l);
        } else if (k === 't') {
            args.push(u32() !== 0);
        } else {
            args.push(u32() | 0);
        }
    }
    var ans;
    try {
        var r = glob[obj][name].apply(glob[obj], args);
        slices.forEach(function (s) {
            for (var q = 0; q < s[2]; ++q) {
                if (s[0][q] !== 0xa5 || s[0][s[0].length - 1 - q] !== 0xa5) throw new Error('bytes outside of the slice were written');
            }
        });
        if (r === null || r === undefined) {
            ans = [Buffer.from('n'), n32(0)];
        } else if (r instanceof Uint32Array) {
            ans = [Buffer.from('u'), n32(r.length), Buffer.from(r.buffer, r.byteOffset, r.byteLength)];
        } else if (typeof r === 'number') {
            ans = [Buffer.from('i'), n32(r)];
        } else {
            ans = [Buffer.from('t'), n32(r ? 1 : 0)];
        }
    } catch (e) {
        var m = Buffer.from(String(e));
        ans = [Buffer.from('e'), n32(m.length), m];
    }
    slices.forEach(function (s) { outs.push(Buffer.from(s[1])); });
    write(Buffer.concat(outs.concat(ans)));
}
