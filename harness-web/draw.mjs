// Plays drawing and service-worker jobs against the repository's scripts: node draw.mjs JOBS.json
import { readFileSync } from "node:fs";
import vm from "node:vm";
const app = await import("/repo/web-spectrogram/app.mjs");
const jobs = JSON.parse(readFileSync(process.argv[2], "utf8"));
const out = [];
function canvas(log) {
  const ctx = {
    createImageData: (w, h) => ({ width: w, height: h, data: new Uint8ClampedArray(w * h * 4) }),
    putImageData(img, x, y) { log.img = img; log.at = [x, y]; },
  };
  return { width: 0, height: 0, getContext: (t) => (t === "2d" ? ctx : null) };
}
for (const j of jobs) {
  try {
    if (j.op === "draw") {
      const log = {}, c = canvas(log), args = new Set();
      const color = (m, mx, fl, map) => { args.add(`${mx},${fl},${map}`); return [m & 255, (m >> 8) & 255, (m >> 16) & 255]; };
      app.drawSpectrogram(c, { mags: j.mags, width: j.w, height: j.h, max_mag: j.max }, color, j.map);
      const d = log.img.data, px = [];
      for (let i = 0; i < d.length; i += 4) px.push([d[i], d[i + 1], d[i + 2], d[i + 3]]);
      out.push({ ret: "ok", cw: c.width, ch: c.height, iw: log.img.width, ih: log.img.height, at: log.at, px, args: [...args] });
    } else if (j.op === "sw") {
      const stored = [], handlers = {}, asked = [];
      const cached = new Map(j.cached.map((u) => [u, "cache:" + u]));
      const caches = {
        open: async () => ({ addAll: async (l) => { for (const u of l) { stored.push(u); cached.set(u, "cache:" + u); } } }),
        match: async (r) => cached.get(r.url),
      };
      const box = { self: { addEventListener: (e, f) => { handlers[e] = f; } }, caches, console: { log() {} },
        fetch: async (r) => { asked.push(r.url); return "net:" + r.url; } };
      vm.runInNewContext(readFileSync("/repo/web-spectrogram/sw.js", "utf8"), box);
      const answers = [];
      for (const s of j.steps) {
        let p;
        if (s === "install") { handlers.install({ waitUntil: (q) => { p = q; } }); await p; answers.push("-"); }
        else { handlers.fetch({ request: { url: s }, respondWith: (q) => { p = q; } }); answers.push(await p); }
      }
      out.push({ ret: "ok", stored, answers, asked });
    }
  } catch (e) {
    out.push({ ret: "error", what: String(e) });
  }
}
process.stdout.write(JSON.stringify(out));
