// S05: exported raw key bytes are only derived from, split, or encrypted.
import { ts, strip, Interp, enclosingFn, storeOp, publicApi, isPureLib, sigFile, fsWrite, mkCtx, walkNodes, chain, K } from '../lib/common.mjs'
import { subtle } from '../lib/crypto.mjs'
import { taint } from '../lib/taint.mjs'

export default async function (w, rep) {
  rep.rule('flow', 'bytes obtained by exporting a key only flow into key import/derivation, threshold sharing, or the plaintext of an encryption; never into storage, network, logs, errors, foreign callbacks or a public return value')
  rep.rule('dev', 'the development unlock stores key bytes only when the acknowledgement was given and the environment is not production')
  const pub = publicApi(w)
  const isShare = n => { const t = w.checker.typeToString(w.checker.getTypeAtLocation(n)); return /\bRawShare\b/.test(t) }
  let exports = 0
  for (const c of w.calls) {
    if (subtle(w, c) !== 'exportKey') continue
    const fn = enclosingFn(c)
    if (!fn) continue
    const I0 = new Interp(w, {})
    const fmt = I0.constEval(c.arguments[0], mkCtx(fn))
    // public halves are not secret
    if (fmt && fmt.vals.every(f => f === 'spki')) continue
    exports++
    const r = taint(w, [{ expr: c, ctx: mkCtx(fn) }], {
      member: p => { if (/^(length|byteLength|byteOffset|size)$/.test(p.name.text)) return false; return !isShare(p) },
      call(call, idx, ctx) {
        if (isShare(call)) return 'stop'
        const s = ts.isCallExpression(call) ? subtle(w, call) : null
        if (s) {
          const ok = { encrypt: [2], importKey: [1], sign: [2], digest: [1], deriveBits: [], deriveKey: [], wrapKey: [], verify: [1, 2] }[s]
          return ok?.includes(idx) ? 'stop' : { sink: `raw key bytes as argument ${idx + 1} of ${s}` }
        }
        const op = ts.isCallExpression(call) ? storeOp(w, call) : null
        if (op) return { sink: `raw key bytes reach the store (${op})` }
        if (ts.isNewExpression(call)) return undefined
        const cal = strip(call.expression)
        if (idx < 0) return ts.isPropertyAccessExpression(cal) && /^(fill|clear|delete|has)$/.test(cal.name.text) ? 'stop' : undefined
        const d = ts.isPropertyAccessExpression(cal) ? cal.name.text : ''
        if (d === 'setItem') return { sink: `raw key bytes stored by ${w.text(cal, 40)}`, dev: true }
        if (fsWrite(w, call)) return { sink: 'raw key bytes written to a file' }
        return undefined
      },
      unknown(call, idx, ctx) {
        if (ts.isNewExpression(call)) {
          const nm = strip(call.expression).getText()
          return /^(Uint8Array|Uint32Array|Map|Set|Array|Blob|ArrayBuffer|DataView|Error|.*Error)$/.test(nm) ? undefined : w.resolveCall(call).length ? undefined : { sink: `raw key bytes handed to new ${nm}` }
        }
        if (isPureLib(w, call)) return undefined
        return { sink: `raw key bytes handed to ${w.text(call.expression, 50)}` }
      },
      ret(f) {
        const nm = pub.fns.get(f)
        return nm ? { sink: `raw key bytes returned by public ${nm}` } : undefined
      },
      throw: () => ({ sink: 'raw key bytes in a thrown error' }),
    })
    const dev = r.sinks.filter(s => devGuarded(s))
    const bad = r.sinks.filter(s => !dev.includes(s))
    rep.count('flow_nodes', r.visited)
    rep.ob('flow', `${w.rel(c)}: key exported in ${w.fnName(fn)}`, bad.length === 0, { node: c, fn, msg: [...new Set(bad.map(b => `${b.what} at ${w.loc(b.node)}`))].join('; '), path: bad[0]?.path?.slice(0, 10) ?? [] })
    for (const s of dev) rep.ob('dev', `${w.rel(s.node)}: ${w.fnName(enclosingFn(s.node))}`, true, { node: s.node, fn: enclosingFn(s.node) })
  }
  /** Storage write that is unreachable without acknowledgement and in production. */
  function devGuarded(s) {
    if (!/stored by/.test(s.what)) return false
    let root = s.ctx
    while (root?.parent?.fn) root = root.parent
    const fn = root?.fn ?? enclosingFn(s.node)
    if (!/dev-?unlock/i.test(w.fnName(fn))) return false
    const reaches = (assume) => {
      let hit = false
      const I = new Interp(w, {
        isEvent: n => n === s.node || ts.isThrowStatement(n),
        onCall(call) { if (call === s.node) hit = true },
        assume,
      })
      I.run(fn)
      return hit
    }
    const isAck = e => ts.isPropertyAccessExpression(e) && e.name.text === 'acknowledge'
    const isEnv = e => ts.isPropertyAccessExpression(e) && e.name.text === 'NODE_ENV'
    if (!reaches(() => undefined)) return false
    const dev = e => (isEnv(e) ? { vals: ['development'] } : undefined)
    if (reaches(e => (isAck(e) ? { vals: [''] } : dev(e)))) return false
    if (reaches(e => (isAck(e) ? { vals: ['I-UNDERSTAND'] } : dev(e)))) return false
    if (reaches(e => (isEnv(e) ? { vals: ['production'] } : ts.isTypeOfExpression(e) && /process/.test(e.expression.getText()) ? { vals: ['object'] } : undefined))) return false
    // outside localhost
    if (reaches(e => {
      if (isEnv(e)) return { vals: ['development'] }
      if (ts.isTypeOfExpression(e)) return { vals: ['object'] }
      if (ts.isPropertyAccessExpression(e) && e.name.text === 'hostname') return { vals: ['app.example.com'] }
      return undefined
    })) return false
    return true
  }
  rep.count('key_exports', exports)
  rep.atLeast('flow', 6)
  rep.atLeast('dev', 1)
  return 'Forward, context-sensitive value flow from every SubtleCrypto.exportKey result to every consumer in the program; the development unlock is re-examined by conditional reachability.'
}
