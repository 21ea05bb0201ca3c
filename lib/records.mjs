// Record operations of the core: the store writes they reach, interpreted with
// every optional subsystem switched on and the client's facts along the way.
import { ts, strip, stripAwait, Interp, origins, storeOp, publicApi, enclosingFn, thrownClass, walkNodes, K } from './common.mjs'
import { knownPrefix } from '../checks/A01.mjs'
import { SOME } from './encon.mjs'
export { SOME }

/** Implementation object a function belongs to: the stand-in used while a subsystem is off. */
export function isStandIn(w, fn) {
  for (let p = fn; p; p = p.parent) {
    if (ts.isObjectLiteralExpression(p)) {
      const v = p.parent
      const d = v && (ts.isVariableDeclaration(v) ? v : ts.isAsExpression(v) || ts.isSatisfiesExpression(v) || ts.isParenthesizedExpression(v) ? v.parent : null)
      if (d && ts.isVariableDeclaration(d) && /Strategy$/.test(d.type?.getText() ?? w.typeName(d)) && ts.isSourceFile(d.parent.parent.parent)) return true
    }
    if (ts.isClassLike(p) || ts.isSourceFile(p)) return false
  }
  return false
}
export const enabled = w => ts_ => { const on = ts_.filter(t => !isStandIn(w, t.fn)); return on.length ? on : ts_ }

/** Present: handles, callbacks and subsystems a collection was opened with. */
export function allOn(w, { present = [], absent = [], flags = {} } = {}) {
  const here = new Set(present), gone = new Set(absent)
  return (e, ctx, I) => {
    if (!ts.isPropertyAccessExpression(e) && !ts.isIdentifier(e)) return undefined
    if (ts.isIdentifier(e) && e.text === 'undefined') return undefined
    if (ts.isPropertyAccessExpression(e)) {
      const s = w.sym(e.name), d = s?.valueDeclaration
      if (d && ts.isPropertyDeclaration(d) && ts.isClassLike(d.parent)) {
        const cn = d.parent.name?.text
        if (flags[`${cn}.${e.name.text}`]) return { vals: flags[`${cn}.${e.name.text}`] }
        const t = w.checker.getNonNullableType(w.checker.getTypeAtLocation(d))
        if (cn === 'Collection' && (t.getCallSignatures().length || (t.symbol?.name === '__type' && t.getProperties().length && t.getProperties().every(p => p.declarations?.some(ts.isMethodSignature))))) return { vals: [SOME] }
      }
    }
    const tn = w.typeName(e)
    if (here.has(tn)) return { vals: [SOME] }
    if (gone.has(tn)) return { vals: [undefined] }
    return undefined
  }
}
/** Kind of collection a store write addresses. */
export function writeKind(w, I, c, ctx) {
  const op = storeOp(w, c)
  if (op === 'saveAll' || op === 'tx') return 'all'
  const coll = knownPrefix(w, I, c.arguments[1], ctx), id = knownPrefix(w, I, c.arguments[2], ctx)
  if (id.startsWith('_idx/')) return 'index'
  if (!coll.startsWith('_')) return 'record'
  return coll.replace(/^_/, '').replace(/^(blob_slots|blob_versions|blob_index|blob_chunks|dict|presence).*/, '$1')
}
/** Interprets `fn`; hooks see every store call with its kind. */
export function recordRun(w, fn, { assume, onStore, onCall, rel, start, maxDepth = 9, isEvent, vals = false, from, ...hooks } = {}) {
  const hits = []
  const I = new Interp(w, {
    isEvent: n => (ts.isCallExpression(n) && !!storeOp(w, n)) || ts.isThrowStatement(n) || !!isEvent?.(n),
    assume,
    targets: enabled(w),
    onCall(c, st, ctx, I, targets) {
      const op = ts.isCallExpression(c) ? storeOp(w, c) : null
      if (op) {
        let kind = ['put', 'delete', 'saveAll', 'tx'].includes(op) || (op === 'get' && c.arguments.length > 2) ? writeKind(w, I, c, ctx) : null
        if (kind === 'record' && replicating(ctx)) kind = 'replica'
        hits.push({ c, ctx, op, kind, st })
        const r = onStore?.({ c, op, kind, st, ctx, I })
        return r ?? { st, opaque: true, throwSt: st }
      }
      return onCall?.(c, st, ctx, I, targets)
    },
    ...hooks,
  }, { maxDepth })
  if (rel?.set) I.relevant = rel.set
  I._computeRelevant()
  if (rel) rel.set = I.relevant
  I.collectVals = I.trackMembers = vals
  const out = I.run(fn, start, from)
  return { hits, out, I }
}
const REPLICA = /^(SyncEngine|SyncScheduler|PresenceHandle|DictionaryHandle)$/
/** Running inside ciphertext replication, presence or dictionary bookkeeping. */
export function replicating(ctx) {
  for (let c = ctx; c; c = c.parent) { const f = c.fn; if (f?.parent && ts.isClassLike(f.parent) && REPLICA.test(f.parent.name?.text ?? '')) return f.parent.name.text !== 'DictionaryHandle' || c === ctx }
  return false
}
const ELSEWHERE = /^((SyncScheduler|SyncEngine|PresenceHandle|LazyQuery)\..*|Noydb\.(revoke|rotate|push|pull|sync)|Vault\.load|Collection\.(rebuildIndexes|reconcileIndex))$/
/** Public operations of the core that reach a store write of a user record. */
export function recordOps(w) {
  if (w._recordOps) return w._recordOps
  const rel = {}
  const list = []
  for (const [fn, name] of publicApi(w).fns) {
    if (w.pkgOf(fn) !== 'hub' || list.some(x => x.fn === fn) || ELSEWHERE.test(name) || /(^|\.)_/.test(name)) continue
    const cls = fn.parent && ts.isClassLike(fn.parent) ? fn.parent.name?.text : null
    const r = recordRun(w, fn, { rel })
    const ws = r.hits.filter(h => h.kind === 'record' && (h.op === 'put' || h.op === 'delete'))
    if (ws.length) list.push({ fn, name, cls, writes: ws })
  }
  return (w._recordOps = list)
}
/** Undoing: reached only after an operation of the same run failed. */
export const undoing = { onCatch: (n, st) => st && ({ must: new Set([...st.must, 'failed']), may: new Set([...st.may, 'failed']) }) }
const DIRECT = /^Collection\.(put|delete|putAtTier|elevate|demote)$/
/** Operations that themselves write one record. */
export const directOps = w => recordOps(w).filter(o => o.cls === 'Collection' && DIRECT.test(o.name))
/** Record writes of `o`, outside the undoing of a failed run, and whether each is made inside a judged operation. */
export function viaJudged(w, o, judged, opts) {
  return recordRun(w, o.fn, { ...undoing, ...opts }).hits.filter(h => h.kind === 'record' && (h.op === 'put' || h.op === 'delete') && !h.st.must.has('failed')).map(h => {
    let via = false
    for (let c = h.ctx; c; c = c.parent) if (judged.has(c.fn)) via = true
    return { ...h, via }
  })
}
