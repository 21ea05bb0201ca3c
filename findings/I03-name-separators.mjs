// Names containing the backend's separator make two records share one address.
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
const R = process.env.R || '/repo'
const env = t => ({ _noydb: 1, _v: 1, _ts: '2030-01-01T00:00:00Z', _iv: 'aXY=', _data: t })
const clash = async (name, st, a, b) => {
  await st.put(...a, env('first'))
  await st.put(...b, env('second')).catch(e => console.log(name, 'second put fails', e.code))
  console.log(name, JSON.stringify(a), 'now reads', (await st.get(...a))?._data)
}
const { jsonFile } = await import(R + '/packages/to-file/dist/index.js')
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'i03-'))
await clash('to-file', jsonFile({ dir }), ['va', 'ca/x', 'ia'], ['va', 'ca', 'x/ia'])
await clash('to-file', jsonFile({ dir }), ['va', 'cab', 'ia'], ['va', 'ca', '../cab/ia'])
fs.rmSync(dir, { recursive: true })
const files = new Map()
const handle = { readFile: async p => files.has(p) ? Buffer.from(files.get(p)) : null, writeFile: async (p, d) => void files.set(p, d), unlink: async p => void files.delete(p), mkdir: async () => {}, rename: async (a, b) => { files.set(b, files.get(a)); files.delete(a) }, readdir: async () => [] }
const { ssh } = await import(R + '/packages/to-ssh/dist/index.js')
await clash('to-ssh', ssh({ sftp: handle }), ['va', 'ca/x', 'ia'], ['va', 'ca', 'x/ia'])
const { smb } = await import(R + '/packages/to-smb/dist/index.js')
await clash('to-smb', smb({ smb: handle }), ['va', 'ca/x', 'ia'], ['va', 'ca', 'x/ia'])
const ls = new Map()
globalThis.localStorage = { getItem: k => ls.get(k) ?? null, setItem: (k, v) => void ls.set(k, v), removeItem: k => void ls.delete(k), key: i => [...ls.keys()][i], get length() { return ls.size } }
const { browserLocalStore } = await import(R + '/packages/to-browser-local/dist/index.js')
await clash('to-browser-local', browserLocalStore(), ['va', 'ca:x', 'ia'], ['va', 'ca', 'x:ia'])
// a 32-bit digest of the id: two ids found by enumeration share it
const fnv = s => { let h = 0x811c9dc5; for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 0x01000193) } return h >>> 0 }
const seen = new Map()
let pair
for (let i = 0; !pair; i++) { const k = 'rec-' + i, h = fnv(k); if (seen.has(h)) pair = [seen.get(h), k]; seen.set(h, k) }
await clash('to-browser-local obfuscated', browserLocalStore({ obfuscate: true }), ['va', 'ca', pair[0]], ['va', 'ca', pair[1]])
