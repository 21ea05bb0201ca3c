// I13: attachments are authenticated, complete and reference-counted.
import { ts, strip, stripAwait, storeOp, enclosingFn, publicApi, walkNodes, isFnLike, Interp, addMust, chain, origins, K } from '../lib/common.mjs'
import { AbsObj } from '../lib/interp.mjs'
import { subtle, algProp } from '../lib/crypto.mjs'
import { recordRun } from '../lib/records.mjs'

export default async function (w, rep) {
  rep.rule('bind', 'every chunk is encrypted with content identity, position and chunk count bound in, and read with the same binding')
  rep.rule('whole', 'the chunks of an upload cover the content without gap or overlap, and are put together in order')
  rep.rule('missing', 'a missing chunk is an error')
  rep.rule('order', 'chunks are stored before their index entry, and the index entry before the slot that names it')
  rep.rule('count', 'references are counted before they are stored and discounted only after they are gone, once each')
  rep.rule('cas', 'slot and index entries are replaced only at the version they were read at')
  rep.rule('retry', 'a step that may be repeated decides afresh which reference it replaced')
  rep.rule('kept', 'stored content that is still referred to is never removed')

  const api = publicApi(w).fns
  const of = n => [...api].find(([f, m]) => m === `BlobSet.${n}` && f.body)?.[0]
  const m = {}
  for (const n of ['put', 'get', 'delete', 'publish', 'getVersion', 'deleteVersion', 'decryptResponse']) { m[n] = of(n); if (!m[n]) rep.missing('bind', `BlobSet.${n}`) }
  if (Object.values(m).some(f => !f)) return 'incomplete'

  const reach = (fn, ops, seen = new Set()) => {
    const k = `_sub_${ops}`
    if (fn[k] !== undefined) return fn[k]
    if (seen.has(fn)) return false
    seen.add(fn)
    let y = false
    if (fn.body) walkNodes(fn.body, n => { if (!y && ts.isCallExpression(n)) y = ops.includes(subtle(w, n) ?? '-') || w.resolveCall(n).some(t => reach(t.fn, ops, seen)) })
    return (fn[k] = y)
  }
  /** Assignment to a variable of an enclosing function. */
  const captured = x => { if (!ts.isBinaryExpression(x) || x.operatorToken.kind !== K.EqualsToken || !ts.isIdentifier(strip(x.left))) return false; const d = w.declOf(strip(x.left)); return !!d && ts.isVariableDeclaration(d) && enclosingFn(d) !== enclosingFn(x) && !!enclosingFn(d) }
  const inflates = x => ts.isNewExpression(x) && strip(x.expression).getText() === 'DecompressionStream'
  /** A started step is waited for before the method goes on to its end. */
  const settled = (I, ctx, c) => {
    const one = x => {
      if (I.isAwaited(x) || !I.returnsPromise(x)) return true
      let p = x.parent
      const list = ts.isCallExpression(p) && ts.isPropertyAccessExpression(strip(p.expression)) && strip(p.expression).name.text === 'push' ? strip(strip(p.expression).expression) : ts.isVariableDeclaration(p) ? p.name : null
      if (!list || !ts.isIdentifier(list)) return false
      const d = ts.isVariableDeclaration(p) ? p : w.declOf(list)
      let y = false
      walkNodes(enclosingFn(x).body, n => { if (ts.isAwaitExpression(n)) walkNodes(n, i => { if (ts.isIdentifier(i) && i !== list && w.declOf(i) === d) y = true }) })
      return y
    }
    if (!one(c)) return false
    for (let k = ctx; k; k = k.parent) if (k.call && ts.isCallExpression(k.call) && !one(k.call)) return false
    return true
  }
  const typeOf = e => w.checker.typeToString(w.checker.getTypeAtLocation(e))
  const KEY = { key: true }
  const rel = { set: null }
  const OLD = { eTag: 'OLD', size: 9, compressedSize: 9, compression: 'none', chunkSize: 400, chunkCount: 1, createdAt: 'T', refCount: 2 }
  const CUR = { ...OLD, eTag: 'ETAG', chunkCount: 3, size: 1000, compressedSize: 1000, refCount: 5 }
  const slot = eTag => ({ eTag, filename: 'n', size: 9, uploadedAt: 'T' })

  /** Interprets a method on known slots, index and versions. */
  const play = (fn, args, { slots = {}, slots2, index = {}, versions = {}, missing = new Set(), size = 1000, encrypted = true, etag = 'ETAG', fail, always } = {}) => {
    const log = []
    let reads = 0, n = 0, slotReads = 0
    const one = (I, e, ctx) => { const v = e && I.constEval(e, ctx); return v && v.vals.length === 1 ? v.vals[0] : undefined }
    const field = (I, o, name) => { if (o instanceof AbsObj) { const v = o.get(name, I, 0); return v?.vals.length === 1 ? v.vals[0] : undefined } return o?.[name] }
    const hasher = e => ts.isCallExpression(e) && !subtle(w, e) && /^(Promise<string>|string)$/.test(typeOf(e)) && w.resolveCall(e).some(t => reach(t.fn, 'sign,digest'))
    const r = recordRun(w, fn, {
      rel, vals: true, maxDepth: 9, closures: true,
      isEvent: x => captured(x) || inflates(x) || ts.isCallExpression(x) && (/^(encrypt|decrypt)$/.test(subtle(w, x) ?? '') || (ts.isIdentifier(strip(x.expression)) && (d => !!d && ts.isParameter(d))(w.declOf(strip(x.expression))))),
      assume(e, ctx, I) {
        if (ts.isIdentifier(e)) { const d = w.declOf(e); const i = d ? fn.parameters.indexOf(d) : -1; if (i >= 0) return { vals: [args[i]] } }
        if (ts.isPropertyAccessExpression(e)) {
          if (w.memberName(e) === 'BlobSet.encrypted') return { vals: [encrypted] }
          if (w.memberName(e) === 'BlobSet.canWrite') return { vals: [true] }
          if (w.memberName(e) === 'BlobSet.recordId') return { vals: ['R'] }
          if (w.memberName(e) === 'BlobSet.collection') return { vals: ['C'] }
          const g = w.sym(e.name)?.valueDeclaration
          if (g && ts.isGetAccessorDeclaration(g) && w.returnExprs(g).length === 1) return I.constEval(w.returnExprs(g)[0], ctx) ?? undefined
          if (/^BlobSet\.(userId|maxBlobBytes)$/.test(w.memberName(e) ?? '')) return { vals: [undefined] }
        }
        if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.InstanceOfKeyword && strip(e.right).getText() === 'ConflictError') return { vals: [!!I.curSt?.must.has('slots conflict')] }
        if (!ts.isCallExpression(e)) return undefined
        const op = storeOp(w, e)
        if (op === 'get') {
          const coll = one(I, e.arguments[1], ctx), id = one(I, e.arguments[2], ctx)
          if (coll === '_blob_chunks') return { vals: [missing.has(id) ? null : { _v: 1, _iv: `iv ${id}`, _data: `chunk ${id}` }] }
          if (coll === '_blob_index') { const b = id === undefined ? OLD : index[id]; return { vals: [b ? { _v: 7, _iv: 'i', _data: JSON.stringify(b) } : null] } }
          if (typeof coll === 'string' && coll.startsWith('_blob_slots_')) { const s = slots2 && I.curSt?.must.has('slots conflict') ? slots2 : slots; return { vals: [s ? { _v: 4, _iv: 'i', _data: JSON.stringify(s) } : null] } }
          if (typeof coll === 'string' && coll.startsWith('_blob_versions_')) return { vals: [id !== undefined && versions[id] ? { _v: 1, _iv: 'i', _data: JSON.stringify(versions[id]) } : null] }
          return undefined
        }
        if (op) return undefined
        if (/^(Promise<)?CryptoKey/.test(typeOf(e))) return { vals: [KEY] }
        if (/^JSON\.parse$/.test(e.expression.getText())) { const v = one(I, e.arguments[0], ctx); return typeof v === 'string' ? { vals: [JSON.parse(v)] } : undefined }
        if (/^JSON\.stringify$/.test(e.expression.getText())) return I._now(e.arguments[0], ctx) ?? I._literal(e.arguments[0], ctx) ?? undefined
        if (ts.isPropertyAccessExpression(strip(e.expression)) && strip(e.expression).name.text === 'encode' && w.typeName(strip(e.expression).expression) === 'TextEncoder') { const v = one(I, e.arguments[0], ctx); return typeof v === 'string' ? { vals: [`utf8 ${v}`] } : undefined }
        if (hasher(e)) { const bytes = e.arguments.find(a => /Uint8Array|ArrayBuffer/.test(typeOf(a))); return bytes && one(I, bytes, ctx) === args[1] ? { vals: [etag] } : undefined }
        if (!subtle(w, e) && /^(Promise<string>|string)$/.test(typeOf(e)) && w.resolveCall(e).some(t => reach(t.fn, 'decrypt'))) { const v = one(I, e.arguments[1], ctx); return v === undefined ? undefined : { vals: [v] } }
        // text encryption: the stored data stands for the text
        if (!subtle(w, e) && /EncryptResult/.test(typeOf(e)) && e.arguments.length === 2) { const v = I.constEval(e.arguments[0], ctx); return v && v.vals.length === 1 ? { vals: [{ iv: 'i', data: v.vals[0] }] } : undefined }
        return undefined
      },
      onRaise: () => null,
      onAtom: undefined,
      onCall(c, st, ctx, I) {
        if (inflates(c)) return { st: addMust(st, 'inflated'), opaque: true, throwSt: null }
        if (!ts.isCallExpression(c)) return undefined
        const s = subtle(w, c)
        if (s === 'encrypt' || s === 'decrypt') {
          const a = algProp(w, I, c.arguments[0], ctx, 'additionalData')
          const bytes = I.deref(c.arguments[2], ctx)
          const cut = bytes && stripAwait(strip(bytes.expr))
          let range
          if (s === 'encrypt' && cut && ts.isCallExpression(cut) && /^(subarray|slice)$/.test(strip(cut.expression).name?.text ?? '')) range = [one(I, cut.arguments[0], bytes.ctx), cut.arguments[1] ? one(I, cut.arguments[1], bytes.ctx) : Infinity]
          if (a) log.push({ k: s, aad: one(I, a.expr, a.ctx), range, c, ctx, after: n })
          return { st, opaque: true, throwSt: null }
        }
        return undefined
      },
      onStore({ c, op, st, ctx, I }) {
        const coll = one(I, c.arguments[1], ctx)
        const kind = typeof coll !== 'string' ? coll : coll.replace(/^_blob_(chunks|index|slots|versions).*/, '$1')
        const id = one(I, c.arguments[2], ctx)
        if (op === 'get') { log.push({ k: kind === 'chunks' ? 'chunk' : 'read', on: kind, id, c, ctx }); return { st, opaque: true, throwSt: null } }
        if (op === 'put' || op === 'delete') {
          const env = op === 'put' ? I._now(c.arguments[3], ctx)?.vals?.[0] : null
          const data = env && field(I, env, '_data')
          const ev = c.arguments[4] ? one(I, c.arguments[4], ctx) : undefined
          log.push({ k: op, on: kind, id, count: kind === 'index' && data ? field(I, data, 'refCount') : undefined, layout: kind === 'index' && data ? field(I, data, 'chunkCount') : undefined, expected: ev, awaited: settled(I, ctx, c), c, ctx })
          n++
          if (fail && kind === fail[0] && log.filter(x => (x.k === 'put' || x.k === 'delete') && x.on === kind).length - 1 === fail[1]) return { st: null, opaque: true, throwSt: addMust(st, 'failed') }
          if (always && kind === always) return { st: null, opaque: true, throwSt: addMust(st, 'slots conflict') }
          if (slots2 && kind === 'slots' && !st.must.has('slots conflict')) return { st: null, opaque: true, throwSt: addMust(st, 'slots conflict') }
        }
        return { st, opaque: true, throwSt: null }
      },
    })
    return { log, writes: log.filter(x => x.k === 'put' || x.k === 'delete'), normal: !!r.out.normal, inflated: { must: !!r.out.normal?.must.has('inflated'), may: !!r.out.normal?.may.has('inflated') }, throws: !!r.out.throwSt, vals: r.out.vals }
  }
  const data = size => ({ byteLength: size, length: size })
  const show = l => l.map(x => `${x.k} ${x.on ?? ''}${x.id !== undefined ? ' ' + x.id : ''}${x.count !== undefined ? ` count ${x.count}` : ''}`).join(', ') || 'nothing'
  const at = (r, fn, k) => { const x = r.log.find(y => k ? k(y) : y.c) ?? r.log.find(y => y.c); return { node: x?.c ?? fn, fn, path: x ? chain(w, x.ctx) : [] } }
  const put = (size, o) => play(m.put, ['n', data(size), { compress: false, chunkSize: 400, mimeType: 'a/b', uploadedBy: 'u' }], { size, ...o })

  // ── binding and completeness ─────────────────────────────────────────
  const bound = new Map()
  for (const [size, count] of [[1000, 3], [700, 2], [100, 1], [0, 1], [1200, 3], [401, 2], [400, 1]]) for (const etag of ['ETAG', 'OTHER']) {
    const r = put(size, { etag })
    const enc = r.log.filter(x => x.k === 'encrypt'), ch = r.writes.filter(x => x.on === 'chunks')
    rep.ob('bind', `writing ${size} bytes of ${etag}`, enc.length === count && ch.length === count && enc.every(x => typeof x.aad === 'string') && new Set(ch.map(x => x.id)).size === count, { ...at(r, m.put, x => x.k === 'encrypt'), msg: `expected ${count} chunks stored under their own ids, each bound to its place; found ${enc.length} bound (${enc.map(x => x.aad ?? 'unknown').join(', ')}) and ${ch.length} stored (${ch.map(x => x.id).join(', ')})` })
    ch.forEach((x, i) => { const b = enc[i]?.aad; const key = `${etag}/${i}/${count}`; if (typeof b !== 'string') return; const clash = [...bound].find(([k, v]) => k !== key && v.aad === b); rep.ob('bind', `${key} differs from every other`, !clash, { node: enc[i].c, fn: m.put, msg: `the binding of chunk ${i} of ${count} of ${etag} is the same as that of ${clash?.[0]}` }); bound.set(key, { aad: b, id: x.id }) })
    if (count > 1 || size > 0) {
      let next = 0, ok = enc.length > 0
      for (const x of enc) { if (count === 1 && !x.range) { next = size; continue } if (!x.range || x.range[0] !== next || !(x.range[1] > next)) ok = false; else next = x.range[1] }
      rep.ob('whole', `writing ${size} bytes of ${etag}`, ok && next >= size, { ...at(r, m.put, x => x.k === 'encrypt'), msg: `chunks cover ${enc.map(x => x.range ? `${x.range[0]}–${x.range[1]}` : '?').join(', ')} of ${size} bytes` })
    }
    const idx = r.writes.filter(x => x.on === 'index')
    rep.ob('order', `${size} bytes of ${etag}`, r.normal && idx.length === 1 && idx[0].id === etag && idx[0].layout === count && r.writes.filter(x => x.on === 'slots').length === 1 && r.writes.map(x => x.on).join() === [...ch.map(() => 'chunks'), 'index', 'slots'].join() && r.writes.every(x => x.awaited), { ...at(r, m.put, x => x.on === 'index'), msg: `expected the chunks, then the index entry, then the slot; found ${show(r.writes)}` })
    rep.ob('count', `first upload of ${size} bytes of ${etag}`, idx.every(x => x.count === 1), { ...at(r, m.put, x => x.on === 'index'), msg: 'a new content has one reference' })
    rep.ob('cas', `first upload of ${size} bytes of ${etag}`, idx.every(x => x.expected === 0), { ...at(r, m.put, x => x.on === 'index'), msg: 'the first index entry must be written only if there is still none: two uploads of the same content would count as one' })
  }
  { const r = put(1000, { encrypted: false }); const idx = r.writes.filter(x => x.on === 'index'); rep.ob('order', '1000 bytes unencrypted', r.normal && idx.length === 1 && idx[0].id === 'ETAG' && idx[0].layout === 3 && r.writes.map(x => x.on).join() === 'chunks,chunks,chunks,index,slots' && r.writes.every(x => x.awaited), { ...at(r, m.put, x => x.on === 'index'), msg: `expected the chunks, then the index entry under the identity of the whole content, then the slot; found ${show(r.writes)}` }) }
  for (const k of [0, 1, 2]) {
    const r = put(1000, { fail: ['chunks', k] })
    rep.ob('order', `storing chunk ${k} fails`, !r.normal && !r.writes.some(x => x.on !== 'chunks'), { ...at(r, m.put), msg: `nothing may refer to an incomplete upload; found ${show(r.writes)}` })
  }
  { const r = put(1000, { fail: ['index', 0] }); rep.ob('order', 'storing the index entry fails', !r.normal && !r.writes.some(x => x.on === 'slots'), { ...at(r, m.put), msg: `no slot may name content without index entry; found ${show(r.writes)}` }) }

  // ── reading ──────────────────────────────────────────────────────────
  const V = 'R::n::v1'
  const readers = [
    ['get', ['n'], { slots: { n: slot('ETAG') } }],
    ['getVersion', ['n', 'v1'], { versions: { [V]: { label: 'v1', eTag: 'ETAG', publishedAt: 'T' } } }],
  ]
  for (const [n, args, o] of readers) for (const count of [1, 2, 3]) {
    const index = { ETAG: { ...CUR, chunkCount: count } }
    const r = play(m[n], args, { ...o, index })
    const dec = r.log.filter(x => x.k === 'decrypt'), ids = r.log.filter(x => x.k === 'chunk').map(x => x.id)
    const want = Array.from({ length: count }, (_, i) => bound.get(`ETAG/${i}/${count}`))
    rep.ob('bind', `BlobSet.${n} of ${count} chunk${count > 1 ? 's' : ''}`, r.normal && dec.length === count && want.every((x, i) => x && dec[i].aad === x.aad && ids[i] === x.id), { ...at(r, m[n], x => x.k === 'decrypt'), msg: `reading must use the binding of writing; wrote ${want.map(x => `${x?.id}: ${x?.aad}`).join(', ')}; reads ${dec.map((x, i) => `${ids[i]}: ${x.aad ?? 'unbound'}`).join(', ') || 'nothing bound'}` })
    rep.ob('whole', `BlobSet.${n} of ${count} uncompressed`, r.normal && !r.inflated.may, { node: m[n], fn: m[n], msg: 'content stored as it is, is decompressed' })
    const z = play(m[n], args, { ...o, index: { ETAG: { ...CUR, chunkCount: count, compression: 'gzip' } } })
    rep.ob('whole', `BlobSet.${n} of ${count} compressed`, z.normal && z.inflated.must, { node: m[n], fn: m[n], msg: 'compressed content is returned as it is stored' })
    for (let i = 0; i < count; i++) {
      const q = play(m[n], args, { ...o, index, missing: new Set([want[i]?.id]) })
      rep.ob('missing', `BlobSet.${n}, chunk ${i} of ${count}`, !q.normal && q.throws, { ...at(q, m[n], x => x.k === 'chunk'), msg: 'content with a missing chunk is returned as if it were complete' })
    }
    // put together in the order of the chunks
    const joins = joined(m[n])
    rep.ob('whole', `BlobSet.${n} of ${count} chunk${count > 1 ? 's' : ''}`, joins, { node: m[n], fn: m[n], msg: 'the chunks are not put together in the order they were read' })
  }
  {
    const r = play(m.decryptResponse, ['n', undefined], { slots: { n: slot('ETAG') }, index: { ETAG: { ...CUR, chunkCount: 1 } } })
    const dec = r.log.filter(x => x.k === 'decrypt'), want = bound.get('ETAG/0/1')
    rep.ob('bind', 'BlobSet.decryptResponse', dec.length === 1 && dec[0].aad === want?.aad, { ...at(r, m.decryptResponse), msg: `the downloaded chunk must be opened with the binding of writing (${want?.aad}); found ${dec.map(x => x.aad ?? 'none').join(', ') || 'no bound read'}` })
  }
  /** Chunks collected by appending only. */
  function joined(fn) {
    let ok = true
    const seen = new Set(), go = f => {
      if (seen.has(f) || !f.body) return
      seen.add(f)
      walkNodes(f.body, n => {
        if (ts.isCallExpression(n)) {
          const c = strip(n.expression)
          if (ts.isPropertyAccessExpression(c) && /^(unshift|reverse|sort)$/.test(c.name.text) && /Uint8Array/.test(typeOf(c.expression)) && typeOf(c.expression) !== 'Uint8Array<ArrayBuffer>') ok = false
          for (const t of w.resolveCall(n)) if (w.pkgOf(t.fn) === 'hub') go(t.fn)
        }
      })
    }
    go(fn)
    return ok
  }

  // ── references ───────────────────────────────────────────────────────
  const rows = [
    ['put of known content in a new slot', () => put(1000, { index: { ETAG: CUR } }), [['put', 'index', 'ETAG', 6], ['put', 'slots']]],
    ['put of new content over other content', () => put(100, { slots: { n: slot('OLD') }, index: { OLD } }), [['put', 'chunks'], ['put', 'index', 'ETAG', 1], ['put', 'slots'], ['put', 'index', 'OLD', 1]]],
    ['put of known content over other content', () => put(1000, { slots: { n: slot('OLD') }, index: { OLD, ETAG: CUR } }), [['put', 'index', 'ETAG', 6], ['put', 'slots'], ['put', 'index', 'OLD', 1]]],
    ['put beside another slot', () => put(1000, { slots: { other: slot('OLD') }, index: { OLD, ETAG: CUR } }), [['put', 'index', 'ETAG', 6], ['put', 'slots']]],
    ['delete', () => play(m.delete, ['n'], { slots: { n: slot('OLD') }, index: { OLD } }), [['put', 'slots'], ['put', 'index', 'OLD', 1]]],
    ['delete of an absent slot', () => play(m.delete, ['n'], { slots: { other: slot('OLD') }, index: { OLD } }), []],
    ['publish', () => play(m.publish, ['n', 'v1'], { slots: { n: slot('ETAG') }, index: { ETAG: CUR } }), [['put', 'index', 'ETAG', 6], ['put', 'versions']]],
    ['publish over other content', () => play(m.publish, ['n', 'v1'], { slots: { n: slot('ETAG') }, index: { ETAG: CUR, OLD }, versions: { [V]: { label: 'v1', eTag: 'OLD', publishedAt: 'T' } } }), [['put', 'index', 'ETAG', 6], ['put', 'versions'], ['put', 'index', 'OLD', 1]]],
    ['publish of the same content', () => play(m.publish, ['n', 'v1'], { slots: { n: slot('ETAG') }, index: { ETAG: CUR }, versions: { [V]: { label: 'v1', eTag: 'ETAG', publishedAt: 'T' } } }), []],
    ['deleteVersion', () => play(m.deleteVersion, ['n', 'v1'], { index: { OLD }, versions: { [V]: { label: 'v1', eTag: 'OLD', publishedAt: 'T' } } }), [['delete', 'versions'], ['put', 'index', 'OLD', 1]]],
    ['deleteVersion of an absent version', () => play(m.deleteVersion, ['n', 'v1'], { index: { OLD } }), []],
  ]
  const MS = { put: m.put, dele: m.delete, publ: m.publish }
  for (const [label, run, want] of rows) {
    const fn = label.startsWith('deleteVersion') ? m.deleteVersion : MS[label.slice(0, 4)] ?? m[label.split(' ')[0]] ?? m.put
    const r = run()
    const same = (x, y) => x.k === y[0] && x.on === y[1] && (y[2] === undefined || x.id === y[2]) && (y[3] === undefined || x.count === y[3])
    // taking a reference back may come with the removal of content nobody refers to; here somebody does
    rep.ob('count', label, r.normal && r.writes.length === want.length && r.writes.every((x, i) => same(x, want[i]) && x.awaited), { ...at(r, fn, x => x.k === 'put' || x.k === 'delete'), msg: `expected ${want.map(x => `${x[0]} ${x[1]}${x[2] ? ` ${x[2]}` : ''}${x[3] !== undefined ? ` count ${x[3]}` : ''}`).join(', ') || 'no write'}; found ${show(r.writes)}` })
    for (const x of r.writes.filter(y => y.k === 'put' && (y.on === 'index' || y.on === 'slots') && y.count !== 1 || (y.on === 'index' && y.id === 'OLD'))) {
      const v = x.on === 'slots' ? 4 : 7
      rep.ob('cas', `${label}: ${x.on}${x.id ? ` ${x.id}` : ''}`, x.expected === v, { node: x.c, fn, msg: `replaces the entry read at version ${v} with ${x.expected === undefined ? 'no expected version' : `expected version ${x.expected}`}` })
    }
    rep.ob('kept', label, !r.writes.some(x => x.k === 'delete' && (x.on === 'chunks' || x.on === 'index')), { ...at(r, fn, x => x.k === 'delete'), msg: 'removes content that is still referred to' })
  }
  { const r = put(1000, { slots: null, index: { ETAG: CUR } }); const x = r.writes.find(y => y.on === 'slots'); rep.ob('cas', 'first slot of a record', x?.expected === 0, { node: x?.c ?? m.put, fn: m.put, msg: 'the first slots of a record must be written only if there are still none: two concurrent first uploads would lose one' }) }
  // a reference is never stored when counting it failed
  for (const [label, run] of [['put', () => put(1000, { index: { ETAG: CUR }, fail: ['index', 0] })], ['publish', () => play(m.publish, ['n', 'v1'], { slots: { n: slot('ETAG') }, index: { ETAG: CUR }, fail: ['index', 0] })]]) {
    const r = run()
    rep.ob('count', `${label} when counting fails`, !r.normal && !r.writes.some(x => x.on === 'slots' || x.on === 'versions'), { ...at(r, m[label]), msg: `stores a reference that is not counted; found ${show(r.writes)}` })
  }
  // a failed removal keeps its reference counted
  for (const [label, run, fn] of [['delete', () => play(m.delete, ['n'], { slots: { n: slot('OLD') }, index: { OLD }, fail: ['slots', 0] }), m.delete], ['deleteVersion', () => play(m.deleteVersion, ['n', 'v1'], { index: { OLD }, versions: { [V]: { label: 'v1', eTag: 'OLD', publishedAt: 'T' } }, fail: ['versions', 0] }), m.deleteVersion]]) {
    const r = run()
    const bad = r.writes.find((x, i) => x.on === 'index' && !r.writes.slice(0, i).some(y => y.on !== 'index'))
    rep.ob('count', `${label} when removing fails`, !bad, { node: bad?.c ?? fn, fn, msg: 'discounts a reference before it is gone' })
  }
  // ── repeated attempts ────────────────────────────────────────────────
  for (const [label, run, none] of [
    ['delete, meanwhile deleted by another', () => play(m.delete, ['n'], { slots: { n: slot('OLD') }, slots2: {}, index: { OLD } }), true],
    ['put, meanwhile replaced with the same content', () => put(1000, { slots: { n: slot('OLD') }, slots2: { n: slot('ETAG') }, index: { OLD, ETAG: CUR } }), true],
    ['put, meanwhile removed by another', () => put(1000, { slots: { n: slot('OLD') }, slots2: {}, index: { OLD, ETAG: CUR } }), true],
    ['delete, meanwhile changed beside', () => play(m.delete, ['n'], { slots: { n: slot('OLD') }, slots2: { n: slot('OLD'), o: slot('ETAG') }, index: { OLD } }), false],
  ]) {
    const r = run()
    const i = r.writes.map(x => x.on).lastIndexOf('slots')
    const tried = r.log.findIndex(x => x.k === 'put' && x.on === 'slots'), again = r.log.findIndex((x, j) => j > tried && x.k === 'read' && x.on === 'slots'), next = r.log.findIndex((x, j) => j > tried && x.k === 'put' && x.on === 'slots')
    rep.ob('retry', `${label}: reads again`, tried >= 0 && again >= 0 && (next < 0 || again < next), { ...at(r, label[0] === 'd' ? m.delete : m.put, x => x.on === 'slots'), msg: 'a repeated attempt does not read the slots again' })
    const down = r.writes.filter((x, j) => j > i && x.on === 'index')
    rep.ob('retry', label, none ? down.length === 0 : down.length === 1 && down[0].count === 1, { ...at(r, label[0] === 'd' ? m.delete : m.put, x => x.on === 'index'), msg: none ? `discounts a reference that somebody else already removed; found ${show(r.writes)}` : `found ${show(r.writes)}` })
  }
  for (const [label, run, fn] of [
    ['put', () => put(1000, { index: { ETAG: CUR }, always: 'slots' }), m.put],
    ['put, counting', () => put(1000, { index: { ETAG: CUR }, always: 'index' }), m.put],
    ['put, first index entry', () => put(1000, { always: 'index' }), m.put],
    ['delete', () => play(m.delete, ['n'], { slots: { n: slot('OLD') }, index: { OLD }, always: 'slots' }), m.delete],
    ['publish', () => play(m.publish, ['n', 'v1'], { slots: { n: slot('ETAG') }, index: { ETAG: CUR }, always: 'index' }), m.publish],
  ]) { const r = run(); rep.ob('cas', `${label} that never gets through`, !r.normal && r.throws, { ...at(r, fn, x => x.k === 'put'), msg: 'returns as if the write had been made although every attempt conflicted' }) }
  // ── nothing else removes content ─────────────────────────────────────
  let dels = 0
  for (const c of w.calls) {
    if (storeOp(w, c) !== 'delete' || w.pkgOf(c) !== 'hub') continue
    const I = new Interp(w, {}, {})
    const v = I.constEval(c.arguments[1], null)
    if (!v || !v.vals.some(x => x === '_blob_chunks' || x === '_blob_index')) continue
    dels++
    let guarded = false
    for (let p = c; p && !isFnLike(p); p = p.parent) if (ts.isIfStatement(p.parent ?? p) && p.parent.thenStatement !== p && /refCount/.test(p.parent.expression.getText())) guarded = true
    const f = w.fnOf?.(c)
    if (!guarded) { let fn = c; while (fn && !isFnLike(fn)) fn = fn.parent; if (fn) walkNodes(fn, x => { if (ts.isPropertyAccessExpression(x) && x.name.text === 'refCount' && ts.isBinaryExpression(x.parent) && x.pos < c.pos) guarded = true }) }
    rep.ob('kept', `delete in ${w.fnName(f) ?? ''}`, guarded, { node: c, msg: 'removes stored content without looking at its references' })
  }
  rep.count('content deletions', dels)
  rep.atLeast('bind', 12); rep.atLeast('count', 8); rep.atLeast('missing', 6); rep.atLeast('retry', 3)
  return 'Interprets the attachment methods on concrete slots, index entries and sizes, with every chunk missing or failing in turn and with an interrupted slot update, and compares bindings, store sequence and reference counts.'
}
