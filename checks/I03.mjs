// I03: every store operation is addressed by the vault, collection and id it was given.
import { ts, walkNodes, storeOp } from '../lib/common.mjs'
import { stores } from '../lib/backend.mjs'
import { addressRun, ENV } from '../lib/address.mjs'

const VS = ['va', 'vab', 'va-b', 'VA'], CS = ['ca', 'cab', 'ca-b', 'CA'], IS = ['ia', 'iab']
const COLS = ['vault', 'collection', 'id']
const PLACE = /^⟨[^⟩]*⟩$/

export default async function (w, rep) {
  rep.rule('record', 'get, put and delete touch exactly the address of the vault, collection and id they are given')
  rep.rule('listing', 'list and listPage see the keys of their vault and collection and no others')
  rep.rule('vault', 'loadAll and saveAll see and change keys of their vault only')
  rep.rule('tx', 'a multi-record transaction touches exactly the addresses of its operations')
  rep.rule('distinct', 'different vault, collection and id never share an address')
  rep.rule('separator', 'names containing the characters the backend uses as separators do not make two addresses coincide')
  rep.rule('lossless', 'address parts are not shortened to a digest under which two names can coincide')
  let n = 0
  for (const s of stores(w)) {
    if (!s.kinds.size || !s.methods.has('get') || !s.methods.has('put') || delegates(w, s)) continue
    n++
    const cfgs = [{ obfuscate: false }]
    if (refers(w, s, 'obfuscate')) cfgs.push({ obfuscate: true })
    if (s.kinds.has('aws') || s.kinds.has('http') || s.kinds.has('fs')) cfgs.push({ obfuscate: false, empty: true })
    for (const cfg of cfgs) store(w, rep, s, cfg)
  }
  rep.count('stores', n)
  for (const [r, k] of [['record', 30], ['listing', 12], ['vault', 14], ['distinct', 10]]) rep.atLeast(r, k)
  rep.assumptions.push('addresses are evaluated for names that are prefixes of one another and for names containing separators; an address built from string concatenation, templates, joins and per-part encodings treats all other names alike')
  rep.assumptions.push('options of a store (directory, table, key prefix) are fixed for its lifetime')
  return 'abstract evaluation of every address each storage adapter hands to its backend'
}
/** a wrapper hands its calls to another store */
function delegates(w, s) { let d = false; walkNodes(s.methods.get('get'), n => { if (ts.isCallExpression(n) && storeOp(w, n)) d = true }); return d }
function refers(w, s, name) { return new RegExp(`\\b${name}\\b`).test(s.holder.getSourceFile().text) }

function store(w, rep, s, cfg) {
  const tag = cfg.obfuscate ? '(obfuscated)' : cfg.empty ? '(no prefix)' : ''
  const digests = new Map()
  const flags = { ...cfg, digest: cfg.obfuscate ? e => digests.set(w.fnName(w.resolveCall(e, null)[0]?.fn), e) : null }
  const run = (m, args) => addressRun(w, s.methods.get(m), args, { flags }).uses
  const fn = m => s.methods.get(m)
  const key = (m, x = '') => `${s.pkg}.${m}${x}${tag}`
  const bad = (rule, m, node, msg) => rep.ob(rule, key(m), false, { node: node ?? fn(m), msg })
  const good = (rule, m, note) => rep.ob(rule, key(m), true, { node: fn(m), fn: fn(m), note })
  const tuples = []
  for (const v of VS) for (const c of CS) for (const i of IS) tuples.push([v, c, i])
  // canonical address per tuple
  const K = new Map()
  const tk = t => t.join('\u0000')
  const addr = (u, want) => u.cols ? COLS.slice(0, want).map(c => u.cols[c]) : u.levels ? u.levels : null
  const eqArgs = (a, t, k) => { for (let i = 0; i < k; i++) if (i < a.length && a[i] !== t[i]) return false; return a.length >= 1 }
  const desc = u => u.unknown ? 'an address that is not a function of the arguments' : JSON.stringify(u.cols ?? u.levels ?? u.key ?? u.prefix + '*')
  /** does a use address exactly record t */
  const exact = (u, t) => {
    if (u.unknown) return false
    if (u.cols) return COLS.every((c, i) => u.cols[c] === t[i])
    if (u.levels !== undefined) return !!u.levels && eqArgs(u.levels, t, 3)
    if (u.prefix !== undefined) return false
    return u.key === K.get(tk(t))
  }
  const structured = u => u.cols || u.levels !== undefined
  let broken = false
  for (const t of tuples) {
    const us = run('get', t)
    const rd = us.filter(u => u.kind !== 'scope')
    if (!rd.length) { bad('record', 'get', null, 'get reads nothing'); broken = true; break }
    if (!structured(rd[0])) {
      if (rd[0].unknown || rd[0].key === undefined) { bad('record', 'get', rd[0].node, `get reads ${desc(rd[0])}`); broken = true; break }
      K.set(tk(t), rd[0].key)
    }
    const off = rd.find(u => !exact(u, t))
    if (off) { bad('record', 'get', off.node, `get(${t}) reads ${desc(off)}`); broken = true; break }
  }
  if (broken) return
  good('record', 'get', K.get(tk(tuples[0])))
  if (K.size) {
    const inv = new Map()
    let clash = null
    for (const [t, k] of K) { if (inv.has(k)) clash = [inv.get(k), t, k]; inv.set(k, t) }
    rep.ob('distinct', key('address'), !clash, { node: fn('get'), msg: clash ? `${clash[0].replace(/\0/g, '/')} and ${clash[1].replace(/\0/g, '/')} are both stored at ${clash[2]}` : '' })
  } else rep.ob('distinct', key('address'), true, { node: fn('get'), note: 'addressed by separate columns or nested maps' })
  // names that only look alike
  {
    const odd = ['ia', 'IA', 'Ia', 'ia ', ' ia', 'i.a', 'i-a', 'i_a', 'i a', 'i%20a', 'i+a', 'i&a', 'i?a', 'i*a', "i'a", 'iá', 'ia\u0301', 'ia.json', '_ia', 'ia1', '1', '01', 'x'.repeat(300) + 'a', 'x'.repeat(300) + 'b']
    let clash = null
    for (let pos = 0; pos < 3; pos++) {
      const seen = new Map()
      for (const o of odd) {
        const t = ['va', 'ca', 'ia']
        t[pos] = o
        const rd = run('get', t).filter(u => u.kind !== 'scope')
        if (rd.some(u => u.unknown) || !rd.length) { clash ??= `get(${JSON.stringify(t)}) has no evaluable address`; continue }
        if (structured(rd[0])) { if (rd.some(u => !exact(u, t))) clash ??= `get(${JSON.stringify(t)}) reads ${desc(rd.find(u => !exact(u, t)))}`; continue }
        const k = rd[0].key
        if (seen.has(k)) clash ??= `${JSON.stringify(seen.get(k))} and ${JSON.stringify(t)} are both stored at ${k}`
        seen.set(k, t)
      }
    }
    rep.ob('distinct', key('lookalikes'), !clash, { node: fn('get'), msg: clash ?? '' })
  }
  const underAll = (p, want) => { // string prefix -> exactly the tuples satisfying want
    for (const t of tuples) if (K.get(tk(t)).startsWith(p) !== want(t)) return t
    return null
  }
  // single-record writes
  for (const [m, verb] of [['put', 'write'], ['delete', 'remove']]) {
    if (!fn(m)) { rep.missing('record', key(m)); continue }
    let off = null, why = ''
    for (const t of tuples) {
      const args = m === 'put' ? [...t, ENV(), 3] : t
      for (const a of m === 'put' ? [args, [...t, ENV(), undefined]] : [args]) {
        const us = run(m, a).filter(u => u.kind !== 'scope')
        const w1 = us.filter(u => u.verb === verb)
        const hit = w1.filter(u => exact(u, t) && (!u.levels || u.levels.length === 3))
        const stray = us.find(u => !exact(u, t) && !(u.verb === 'write' && u.kind === 'fs' && u.key?.startsWith(K.get(tk(t)))))
        if (stray) { off = stray; why = `${m}(${t}) ${stray.verb}s ${desc(stray)}` } else if (!hit.length) { off = { node: fn(m) }; why = `${m}(${t}) has no ${verb} of its record` }
      }
      if (off) break
    }
    off ? bad('record', m, off.node, why) : good('record', m)
  }
  // listings
  const listing = (rule, m, argsOf, k) => {
    if (!fn(m)) return
    let off = null, why = ''
    const heads = k === 2 ? VS.flatMap(v => CS.map(c => [v, c])) : VS.map(v => [v])
    for (const h of heads) {
      const want = t => h.every((x, i) => t[i] === x)
      const us = run(m, argsOf(h))
      let scoped = 0
      for (const u of us) {
        if (u.cols || u.levels !== undefined) {
          const a = addr(u, k)
          if (!a || !h.every((x, i) => i >= a.length || a[i] === x) || (u.cols && h.some((x, i) => u.cols[COLS[i]] !== x))) { off = u; why = `${m}(${h}) reads ${desc(u)}`; break }
          scoped++
          continue
        }
        if (u.prefix !== undefined) {
          if (u.key === undefined && u.kind !== 'scope' && u.prefix === '') continue
          const t = underAll(u.prefix, want)
          const nested = k === 1 && [...K.values()].some(x => x.startsWith(u.prefix)) === false && subOf(us, u, want)
          if (t && !nested) { off = u; why = `${m}(${h}) looks under ${u.prefix}, which ${K.get(tk(t)).startsWith(u.prefix) ? 'also covers' : 'misses'} ${t.join('/')}`; break }
          scoped++
          continue
        }
        // a key taken from the listing
        if (u.unknown || PLACE.test(u.key)) continue
        const p = us.find(x => x.prefix !== undefined && u.key.startsWith(x.prefix) && !underAll(x.prefix, want))
        if (!p && !tuples.some(t => want(t) && K.get(tk(t)) === u.key)) { off = u; why = `${m}(${h}) reads ${desc(u)}`; break }
      }
      if (!off && !scoped) { off = { node: fn(m) }; why = `${m}(${h}) never restricts what it lists to ${k === 2 ? 'its collection' : 'its vault'}` }
      if (off) break
    }
    off ? bad(rule, m, off.node, why) : good(rule, m)
  }
  /** a listing below one already confined: its path extends a confined prefix */
  const subOf = (us, u, want) => us.some(x => x !== u && x.prefix !== undefined && u.prefix.startsWith(x.prefix) && !underAll(x.prefix, want))
  listing('listing', 'list', h => h, 2)
  listing('listing', 'listPage', h => [...h, undefined, 50], 2)
  listing('listing', 'listPage', h => [...h, '5', 50], 2)
  listing('vault', 'loadAll', h => h, 1)
  // bulk write
  if (fn('saveAll')) {
    let off = null, why = ''
    for (const v of VS) {
      const recs = [[v, 'ca', 'ia'], [v, 'ca', 'iab'], [v, 'cab', 'ia']]
      const us = run('saveAll', [v, { ca: { ia: ENV(), iab: ENV() }, cab: { ia: ENV() } }])
      const want = t => t[0] === v
      for (const r of recs) if (!us.some(u => u.verb === 'write' && exact(u, r))) { off = { node: fn('saveAll') }; why = `saveAll(${v}) does not write ${r.join('/')} at its address` }
      for (const u of us) {
        if (off) break
        if (u.verb === 'write' && recs.some(r => exact(u, r) || (u.kind === 'fs' && u.key?.startsWith(K.get(tk(r)))))) continue
        if (recs.some(r => exact(u, r))) continue
        if (u.cols) { if (u.cols.vault !== v) { off = u; why = `saveAll(${v}) ${u.verb}s ${desc(u)}` } continue }
        if (u.levels !== undefined) { if (!u.levels || u.levels[0] !== v) { off = u; why = `saveAll(${v}) ${u.verb}s ${desc(u)}` } continue }
        const p = u.prefix ?? u.key
        if (p === undefined) { off = u; why = `saveAll(${v}) ${u.verb}s ${desc(u)}`; continue }
        const head = u.prefix !== undefined && !underAll(u.prefix, want) ? u : us.find(x => x.prefix !== undefined && p.startsWith(x.prefix) && !underAll(x.prefix, want))
        if (!head && !tuples.some(t => want(t) && K.get(tk(t)) === p)) { off = u; why = `saveAll(${v}) ${u.verb}s ${desc(u)}` }
      }
      if (off) break
    }
    off ? bad('vault', 'saveAll', off.node, why) : good('vault', 'saveAll')
  }
  if (fn('tx')) {
    let off = null, why = ''
    for (const [a, b] of [[0, 1], [2, 0], [4, 0], [7, 2]].map(p => p.map(i => tuples[i]))) {
      const op = (type, t) => ({ type, vault: t[0], collection: t[1], id: t[2], ...(type === 'put' && { envelope: ENV(), expectedVersion: 3 }) })
      const us = run('tx', [[op('put', a), op('delete', b)]])
      const is = (u, verb, t) => u.verb === verb && exact(u, t) && (!u.levels || u.levels.length === 3)
      if (!us.some(u => is(u, 'write', a))) { off = { node: fn('tx') }; why = `no write at the address of the put of ${a.join('/')}` }
      else if (!us.some(u => is(u, 'remove', b))) { off = { node: fn('tx') }; why = `no delete at the address of the delete of ${b.join('/')}` }
      else {
        const st = us.find(u => u.verb === 'write' ? !exact(u, a) && !exact(u, b) : u.verb === 'remove' ? !is(u, 'remove', b) : !exact(u, a) && !exact(u, b))
        if (st) { off = st; why = `a transaction on ${a.join('/')} and ${b.join('/')} ${st.verb}s ${desc(st)}` }
      }
      if (off) break
    }
    off ? bad('tx', 'tx', off.node, why) : good('tx', 'tx')
  }
  // separators
  if (K.size && !cfg.empty) {
    const at = t => { const u = run('get', t).find(u => u.kind !== 'scope'); return u?.key ?? null }
    let clash = null
    for (const sep of ['/', ':', '#', '\\', '|']) {
      const pairs = [[['va', `ca${sep}x`, 'ia'], ['va', 'ca', `x${sep}ia`]], [[`va${sep}x`, 'ca', 'ia'], ['va', `x${sep}ca`, 'ia']]]
      for (const [a, b] of pairs) { const x = at(a), y = at(b); if (x === null || x === y) clash ??= [a, b, x] }
    }
    for (const [a, b] of [[['va', 'ca', '../cab/ia'], ['va', 'cab', 'ia']], [['va', '../vab/ca', 'ia'], ['vab', 'ca', 'ia']]]) { const x = at(a), y = at(b); if (x === null || x === y) clash ??= [a, b, x] }
    rep.ob('separator', key('address'), !clash, { node: fn('get'), msg: clash ? `${JSON.stringify(clash[0])} and ${JSON.stringify(clash[1])} are both stored at ${clash[2]}` : '' })
    if (cfg.obfuscate) rep.ob('lossless', key('address'), !digests.size, { node: [...digests.values()][0], msg: `address parts go through ${[...digests.keys()].join(', ')}, which maps different names to the same short digest` })
  }
}
