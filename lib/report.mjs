// Obligations, violations, known findings and evidence for one property.
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
const HERE = path.dirname(path.dirname(fileURLToPath(import.meta.url)))

export class Report {
  constructor(id, world, tier) {
    this.id = id
    this.w = world
    this.tier = tier
    this.t0 = Date.now()
    this.rules = new Map()      // rule -> {text, total, ok}
    this.violations = []
    this.samples = []
    this.counts = {}
    this.assumptions = []
    this.functions = new Set()
    this.blind = 0
  }
  rule(name, text) { if (!this.rules.has(name)) this.rules.set(name, { text, total: 0, ok: 0 }); return name }
  /** Record one obligation. key identifies the construct without line numbers. */
  ob(rule, key, ok, o = {}) {
    const r = this.rules.get(rule)
    if (!r) throw new Error(`rule ${rule} not declared`)
    r.total++
    if (o.node) { const fn = o.fn; if (fn) this.functions.add(this.w.qual(fn)) }
    if (ok) {
      r.ok++
      if ((r.samples ??= []).length < 4) r.samples.push(`${key}${o.node ? ' @ ' + this.w.loc(o.node) : ''}${o.note ? ' — ' + o.note : ''}`)
    } else {
      if (!this.violations.some(v => v.rule === rule && v.key === key)) {
        this.violations.push({ rule, key, at: o.node ? this.w.loc(o.node) : (o.at ?? null), msg: o.msg ?? '', path: o.path ?? [] })
      }
    }
    return ok
  }
  /** At least n instances of a rule must have been found; the count was confirmed on the delivered tree. */
  atLeast(rule, n) {
    const r = this.rules.get(rule)
    if (r.total < n) this.violations.push({ rule, key: `anchor:${rule}`, at: null, msg: `only ${r.total} instances of "${r.text}" found, expected at least ${n}: the code the rule is about is gone or is no longer recognised`, path: [] })
  }
  missing(rule, what) { this.violations.push({ rule, key: `anchor:${what}`, at: null, msg: `${what} not found`, path: [] }) }
  count(name, n = 1) { this.counts[name] = (this.counts[name] ?? 0) + n }
  finish(explanation) {
    const kf = loadKnown()
    const known = []
    const fresh = []
    for (const v of this.violations) {
      const k = kf.known.find(x => x.property === this.id && x.rule === v.rule && x.key === v.key)
      if (k) known.push({ ...v, what: k.what }); else fresh.push(v)
    }
    const total = [...this.rules.values()].reduce((a, r) => a + r.total, 0)
    const ok = [...this.rules.values()].reduce((a, r) => a + r.ok, 0)
    const ev = {
      property: this.id,
      tier: this.tier,
      seed: Number(process.env.VERIF_SEED ?? 1) | 0,
      level: 'other',
      coverage: {
        explanation,
        program: { source_files: this.w.sourceFiles.length, functions: this.w.fns.length, call_sites: this.w.calls.length },
        obligations: total,
        discharged: ok,
        rules: Object.fromEntries([...this.rules].map(([n, r]) => [n, { rule: r.text, instances: r.total, held: r.ok, samples: r.samples ?? [] }])),
        functions_with_obligations: this.functions.size,
        ...this.counts,
      },
      assumptions: this.assumptions,
      wall_s: Math.round((Date.now() - this.t0 + this.w.loadMs) / 100) / 10,
      violations: fresh.length,
      known_findings: known.map(k => ({ rule: k.rule, construct: k.key, at: k.at })),
    }
    const dir = process.env.VERIF_EVID || path.join(HERE, 'evidence')
    fs.mkdirSync(dir, { recursive: true })
    fs.writeFileSync(path.join(dir, `${this.id}.json`), JSON.stringify(ev, null, 1) + '\n')
    for (const k of known) console.log(`KNOWN-FINDING: property=${this.id} ${k.what} [${k.rule}: ${k.key}${k.at ? ' @ ' + k.at : ''}]`)
    if (fresh.length) {
      const rp = path.join(dir, `${this.id}.violations.json`)
      fs.writeFileSync(rp, JSON.stringify(fresh.map(v => ({ ...v, rule_text: this.rules.get(v.rule)?.text })), null, 1) + '\n')
      for (const v of fresh) {
        console.log(`${this.id} ${v.rule}: ${v.key}${v.at ? ' @ ' + v.at : ''}`)
        if (v.msg) console.log(`    ${v.msg}`)
        for (const p of v.path.slice(0, 12)) console.log(`      via ${p}`)
      }
      console.log(`VIOLATION property=${this.id} replay=${rp}`)
      return 1
    }
    console.log(`OK property=${this.id} obligations=${total} discharged=${ok} known=${known.length} wall_s=${ev.wall_s}`)
    return 0
  }
}
let _known
export function loadKnown() {
  if (_known) return _known
  try { _known = JSON.parse(fs.readFileSync(path.join(HERE, 'known-findings.json'), 'utf8')) } catch { _known = { known: [], fixed: [] } }
  return _known
}
