// Data never becomes syntax.
import { ts, strip, enclosingFn, exportsOf } from '../lib/common.mjs'
import { stores } from '../lib/backend.mjs'
import { Strings, V, data, clean, known, elemOf, nameOf, ALL, BROKEN } from '../lib/strings.mjs'

const EXPORTERS = { 'as-csv': 'csv', 'as-sql': 'sql', 'as-xml': 'xml', 'as-xlsx': 'xml', 'as-json': 'json', 'as-ndjson': 'ndjson' }
const DANGER = { sql: ALL, csv: [',', '"', '\r', '\n'], xml: ['<', '&'], json: ALL, ndjson: ALL }
const SQL_TEXT = new Set(['prepare', 'query', 'execute', 'exec', 'batch', 'unsafe', 'raw', 'queryRaw', 'executeMultiple'])
const show = c => c === BROKEN ? 'delimiters' : ({ '\r': '\\r', '\n': '\\n', '\t': '\\t' })[c] ?? c

export default async function (w, rep) {
  rep.rule('export', 'Everything an exporter emits that comes from records passes through an escape that neutralises, in the context it is spliced into, every character that has meaning there.')
  rep.rule('sql', 'The statement text handed to a SQL engine (and the expressions handed to a document database) is free of names, ids, versions and contents; those travel as bound values.')
  rep.assumptions.push('Options given by the application (element names, table names, namespaces, column lists) are its own text, not data.')
  let fnsSeen = new Set()
  let sinks = 0

  for (const [pkg, format] of Object.entries(EXPORTERS)) {
    const fns = exportedFns(w, pkg).filter(fn => fn.parameters.some(p => w.typeName(p) === 'Vault'))
    if (!fns.length) { rep.missing('export', `exported functions of ${pkg} that take a vault`); continue }
    for (const fn of fns) {
      for (const choice of choices(w, fn)) {
        const found = new Map()
        const label = `${pkg} ${w.fnName(fn)}${choice.label}`
        let here = 0
        const judge = (node, v, what) => {
          if (!v) return
          here++
          const bad = [...v.l].filter(c => c === BROKEN || DANGER[format].includes(c))
          const key = `${what}`
          const prev = found.get(key)
          if (!prev || bad.length) found.set(key, { node: v.at ?? node, bad, at: node })
        }
        const S = new Strings(w, {
          format, mysql: choice.dialect === 'mysql',
          inline: f => inPkg(w, f, pkg),
          source: (e, S, env) => fromVault(w, e, S, env),
          sink: (e, args, S, env) => {
            if (ts.isNewExpression(e)) { if (e.expression.getText() === 'Blob' && args[0]) judge(e, elemOf(args[0]), 'download'); return }
            if (!ts.isCallExpression(e)) return
            const m = nameOf(e.expression)
            if (m === 'encode' && e.arguments.length === 1 && /TextEncoder/.test(typeOf(w, e.expression.expression))) judge(e, S.ev(e.arguments[0], env), 'encoded text')
            if (m === 'writeFile' && e.arguments[1]) judge(e, S.ev(e.arguments[1], env), 'file contents')
            if (m === 'write' && e.arguments[0]) judge(e, S.ev(e.arguments[0], env), 'stream')
          },
        })
        const args = fn.parameters.map(p => w.typeName(p) === 'Vault' ? vaultV() : options(w, p, choice))
        const r = S.callFn(fn, args, null)
        const rt = w.checker.typeToString(w.checker.getTypeAtLocation(fn))
        if (/=> (Promise<string>|string|AsyncGenerator<string|AsyncIterable<string)/.test(rt)) judge(fn, /Async(Generator|Iterable)/.test(rt) ? elemOf(r) : r, 'returned text')
        for (const f of S.visited) fnsSeen.add(f)
        sinks += here
        for (const [what, { node, bad, at }] of found) rep.ob('export', `${label}: ${what}`, !bad.length, { node, fn, msg: `record data reaches the ${format.toUpperCase()} output with ${bad.map(show).map(c => `"${c}"`).join(' ')} not escaped for the place it is spliced into` })
      }
    }
  }
  rep.atLeast('export', 10)

  // stores
  let sqlStores = 0
  for (const st of stores(w)) {
    const pkg = st.pkg
    const factory = enclosingFn(st.holder)
    if (!factory?.body) continue
    const found = new Map()
    const judge = (node, v, what) => { if (!v) return; const p = found.get(what); const bad = [...v.l]; if (!p || bad.length) found.set(what, { node: v.at ?? node, bad }) }
    const S = new Strings(w, {
      format: 'sql', mysql: true, strict: true,
      inline: f => w.pkgOf(f.getSourceFile()) === pkg,
      prop: (p, x) => { if (/Expression$/.test(p.name.text)) judge(p, x, `${p.name.text}`) },
      sink: (e, args, S, env) => {
        if (!ts.isCallExpression(e)) return
        const m = nameOf(e.expression)
        if (!SQL_TEXT.has(m) || w.resolveCall(e).some(t => t.fn.body && w.pkgOf(t.fn.getSourceFile()) === pkg)) return
        if (!e.arguments[0]) return
        const v = S.ev(e.arguments[0], env)
        if (m === 'exec' && /RegExp/.test(typeOf(w, e.expression.expression))) return
        const items = m === 'batch' ? (elemOf(v).f?.has('sql') ? [elemOf(v)] : []) : [v]
        for (const it of items) judge(e, it.f?.get('sql') ?? it.f?.get('text') ?? it.f?.get('statement') ?? (it.f ? null : it), `${m} text`)
      },
    })
    const obj = S.callFn(factory, factory.parameters.map(() => clean()), null)
    for (const [name, v] of obj.f ?? []) {
      if (!v.fn) continue
      S.callFn(v.fn.node, v.fn.node.parameters.map(p => ts.isIdentifier(p.name) && p.name.text ? data(p.name.text) : data('argument')), v.fn.env, v.fn.self)
    }
    if (!found.size) continue
    sqlStores++
    for (const f of S.visited) fnsSeen.add(f)
    for (const [what, { node, bad }] of found) rep.ob('sql', `${pkg}: ${what}`, !bad.length, { node, fn: factory, msg: `a name, id or content given to the store is spliced into the text the engine parses instead of being bound` })
  }
  if (sqlStores < 5) rep.missing('sql', `statement texts of the five SQL stores (found ${sqlStores})`)
  rep.atLeast('sql', 6)
  rep.count('functions_interpreted', fnsSeen.size)
  rep.count('output_sites', sinks)
  return 'String-building code of the exporters and database stores is interpreted over a domain of "characters still raw from data"; each splice is judged in the quoting context of the text around it.'
}

function vaultV() { const v = data('vault'); return v }
function typeOf(w, e) { try { return w.checker.typeToString(w.checker.getTypeAtLocation(e)) } catch { return '' } }
function inPkg(w, f, pkg) { return w.pkgOf(f.getSourceFile()) === pkg }
function fromVault(w, e, S, env) { return null }
function exportedFns(w, pkg) {
  return exportsOf(w, pkg).filter(x => x.fn).map(x => x.fn)
}
/** One run per combination of the option values that are fixed words. */
function choices(w, fn) {
  const p = fn.parameters[fn.parameters.length - 1]
  const t = w.checker.getTypeAtLocation(p)
  let out = [{ label: '', set: {} }]
  for (const s of w.checker.getPropertiesOfType(w.checker.getNonNullableType(t))) {
    const pt = w.checker.getNonNullableType(w.checker.getTypeOfSymbolAtLocation(s, fn))
    const lits = pt.isUnion?.() && pt.types.every(x => x.isStringLiteral?.()) ? pt.types.map(x => x.value) : null
    if (!lits || lits.length > 5 || out.length * lits.length > 12) continue
    out = out.flatMap(o => lits.map(v => ({ label: `${o.label} ${s.name}=${show2(v)}`, set: { ...o.set, [s.name]: v } })))
  }
  return out.map(o => ({ ...o, dialect: o.set.dialect }))
}
const show2 = v => JSON.stringify(v).slice(1, -1)
const NAMES = /^(collections?|collectionName|name|fields?|columns?|include|title|label)$/
/** The options object: fixed words as chosen, names of collections and fields as data, everything else the application's own text. */
function options(w, p, choice) {
  const t = w.checker.getNonNullableType(w.checker.getTypeAtLocation(p))
  if (t.flags & ts.TypeFlags.StringLike) return NAMES.test(p.name.getText()) ? data(p.name.getText()) : clean()
  return shape(w, t, p, choice.set, 0)
}
function shape(w, t, at, set, depth, name = '') {
  t = w.checker.getNonNullableType(t)
  if (t.flags & ts.TypeFlags.StringLike) return NAMES.test(name) ? data(name) : clean()
  if (depth > 3 || !(t.flags & ts.TypeFlags.Object) || t.getCallSignatures().length) return clean()
  if (w.checker.isArrayType(t)) { const el = w.checker.getTypeArguments(t)[0]; return new V({ e: shape(w, el, at, {}, depth + 1, name) }) }
  const v = new V({ f: new Map() })
  v.cfg = true
  for (const s of w.checker.getPropertiesOfType(t)) {
    if (s.name in set) { v.f.set(s.name, known(set[s.name])); continue }
    const x = shape(w, w.checker.getTypeOfSymbolAtLocation(s, at), at, {}, depth + 1, s.name)
    if (x.l.size || x.e || x.f) v.f.set(s.name, x)
  }
  return v
}
