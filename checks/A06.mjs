// A06: exporters and importers are gated by the capability of their own format,
// plaintext files additionally by the caller's acknowledgement.
import { keepField } from '../lib/keyfile.mjs'
import { ts, fsWrite, strip, Interp, exportsOf, paramTypes, assumeProps, storeOp, thrownClass, chain, isGenerator, isFnLike } from '../lib/common.mjs'

const FORMATS = ['xlsx', 'csv', 'json', 'ndjson', 'xml', 'sql', 'pdf', 'blob', 'zip', 'unknown-format']
const HUB_DATA = /packages\/hub\/src\//

/** Calls that read records, blobs or dumps from a vault, or stage changes in it. */
function dataCall(w, call) {
  if (!ts.isCallExpression(call)) return false
  if (storeOp(w, call)) return true
  const c = strip(call.expression)
  const nameNode = ts.isPropertyAccessExpression(c) ? c.name : ts.isIdentifier(c) ? c : null
  if (!nameNode) return false
  const d = w.declOf(nameNode)
  if (!d || !HUB_DATA.test(d.getSourceFile().fileName)) return false
  if (!isFnLike(d) && !ts.isMethodSignature(d)) return false
  const t = w.checker.getTypeAtLocation(call)
  const n = t.symbol?.name ?? ''
  if (/^(Promise|AsyncGenerator|AsyncIterable|AsyncIterableIterator)$/.test(n)) return true
  return /^(toArray|first|count|rows)$/.test(nameNode.text)
}
export default async function (w, rep) {
  rep.rule('gate', 'with every capability except the one for the package\'s own format, no exported function that takes a vault can read records, decrypt blobs or stage changes')
  rep.rule('open', 'with the capability for its own format, the same function does reach the data (the gate names the right format)')
  rep.rule('ack', 'an exported function that writes plaintext files reaches neither data nor file system unless the caller acknowledged the risk')
  rep.rule('keep', 'rewriting a key file keeps the capabilities granted or denied in it')
  rep.rule('hub', 'hub operations that hand out decrypted attachments are gated the same way')

  const events = new Map()
  const mkClient = (table, hits) => ({
    isEvent: n => (ts.isCallExpression(n) && !HUB_DATA.test(n.getSourceFile().fileName) && (dataCall(w, n) || fsWrite(w, n))) || (ts.isThrowStatement(n) && /CapabilityError$/.test(thrownClass(w, n) ?? '')),
    assume: assumeProps(table),
    onCall(call, st, ctx, I) {
      if (!ts.isCallExpression(call)) return undefined
      if (fsWrite(w, call)) { hits.push({ call, ctx, kind: 'fs' }); return { st, opaque: true } }
      if (dataCall(w, call)) { hits.push({ call, ctx, kind: 'data' }); return { st, opaque: true } }
      return undefined
    },
  })
  let rel = null
  const explore = (fn, table) => {
    const hits = []
    const I = new Interp(w, mkClient(table, hits), { maxDepth: 9 })
    I.relevant = rel
    I._computeRelevant(); rel = I.relevant
    const r = I.run(fn)
    hits.completes = !!(r.normal || r.yields)
    return hits
  }
  const cap = (plaintext, bundle) => ({ plaintext, bundle })
  const withCap = (own, has, ack = true) => {
    const pt = FORMATS.filter(f => (f === own ? has : true))
    const b = own === 'bundle' ? has : true
    return [
      { types: ['UnlockedKeyring'], prop: 'role', vals: ['operator'] },
      { types: ['UnlockedKeyring'], prop: 'exportCapability', vals: [cap(pt, b)] },
      { types: ['UnlockedKeyring'], prop: 'importCapability', vals: [cap(pt, b)] },
      { types: null, prop: 'acknowledgeRisks', vals: ack ? [true] : [false, undefined] },
    ]
  }
  const pkgs = w.packages.filter(p => p.short.startsWith('as-'))
  for (const p of pkgs) {
    const own = p.short === 'as-noydb' ? 'bundle' : p.short.slice(3)
    for (const { name, fn } of exportsOf(w, p.short)) {
      if (!fn) continue
      if (!paramTypes(w, fn).some(t => t === 'Vault')) continue
      const free = explore(fn, withCap(own, true))
      if (!free.some(h => h.kind === 'data')) {
        // capability present but nothing reachable: the gate names another format (or there is nothing to gate)
        const any = explore(fn, [{ types: ['UnlockedKeyring'], prop: 'exportCapability', vals: [cap([...FORMATS, '*'], true)] }, { types: ['UnlockedKeyring'], prop: 'importCapability', vals: [cap([...FORMATS, '*'], true)] }, { types: null, prop: 'acknowledgeRisks', vals: [true] }])
        if (any.some(h => h.kind === 'data')) rep.ob('open', `${p.short}.${name}`, false, { node: fn, fn, msg: `the data is unreachable for a caller holding the "${own}" capability: the gate asks for another format` })
        continue
      }
      rep.ob('open', `${p.short}.${name}`, true, { node: fn, fn })
      const all = explore(fn, withCap(own, false))
      const hits = all.filter(h => h.kind === 'data')
      rep.ob('gate', `${p.short}.${name}`, hits.length === 0 && !all.completes, { node: hits[0]?.call ?? fn, fn, msg: hits.length ? `a caller without the "${own}" capability reaches ${w.text(hits[0].call)}` : `a caller without the "${own}" capability is not refused`, path: hits.length ? chain(w, hits[0].ctx) : [] })
      if (own !== 'bundle' && (free.some(h => h.kind === 'fs') || fn.parameters.some(p => w.checker.getTypeAtLocation(p).getProperty?.('acknowledgeRisks')))) {
        const h2 = explore(fn, withCap(own, true, false))
        rep.ob('ack', `${p.short}.${name}`, h2.length === 0 && !h2.completes, { node: h2[0]?.call ?? fn, fn, msg: h2.length ? `without acknowledgeRisks the call ${w.text(h2[0].call)} is reached` : '', path: h2.length ? chain(w, h2[0].ctx) : [] })
      }
      rep.count('entry_points_explored')
    }
  }
  // attachments leave the hub itself through Vault.exportBlobs
  const eb = w.findFn('Vault.exportBlobs')
  if (!eb.length) rep.missing('hub', 'Vault.exportBlobs')
  for (const fn of eb) {
    const free = explore(fn, withCap('blob', true))
    const none = explore(fn, withCap('blob', false))
    rep.ob('hub', 'Vault.exportBlobs', free.completes && !none.completes && none.length === 0, { node: none[0]?.call ?? fn, fn, msg: none.completes ? 'a caller without the "blob" capability is handed attachments' : none.length ? `a caller without the "blob" capability reaches ${w.text(none[0].call)}` : 'the gate asks for another format' })
  }
  rep.atLeast('gate', 30)
  rep.atLeast('ack', 8)
  keepField(w, rep, 'keep', { file: 'export_capability', ring: /^export_?capability$/i }, 'an explicit denial is lost and the role default applies')
  keepField(w, rep, 'keep', { file: 'import_capability', ring: /^import_?capability$/i }, 'granted import rights are lost')
  rep.atLeast('keep', 6)
  return 'Abstract interpretation of every exported as-* function taking a vault, with the caller\'s capability record fixed by conditional constant propagation to "everything but this format" (must reach no data) and to "this format" (must reach data), and with the risk acknowledgement fixed to absent.'
}
