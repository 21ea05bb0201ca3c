// Writes MANIFEST.json from properties.jsonl and the checks that exist.
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
const here = path.dirname(path.dirname(fileURLToPath(import.meta.url)))
const meta = JSON.parse(fs.readFileSync(path.join(here, 'tools/techniques.json'), 'utf8'))
const props = fs.readFileSync(path.join(here, 'properties.jsonl'), 'utf8').trim().split('\n').map(l => JSON.parse(l))
const checks = [], na = []
for (const p of props) {
  if (fs.existsSync(path.join(here, 'checks', `${p.id}.mjs`)) && meta.techniques[p.id]) {
    checks.push({ property: p.id, quick_cmd: `node check.mjs ${p.id} --tier quick`, thorough_cmd: `node check.mjs ${p.id} --tier thorough`, evidence_file: `evidence/${p.id}.json`, technique: 'static analysis: ' + meta.techniques[p.id], level: 'other', level_note: meta.notes[p.id] ?? meta.default_note })
  } else na.push({ property: p.id, reason: meta.not_applicable[p.id] ?? 'no check is registered for this property yet; DESIGN.md describes the planned analysis' })
}
fs.writeFileSync(path.join(here, 'MANIFEST.json'), JSON.stringify({ version: 1, setup_cmd: 'node tools/setup.mjs', checks, not_applicable: na, notes: 'All checks read /repo source on every run through the TypeScript compiler API; nothing of /repo is executed. No hooks were added to /repo.' }, null, 1) + '\n')
console.log(`${checks.length} checks, ${na.length} not applicable`)
