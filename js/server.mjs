// Answers one JSON request per line with one JSON line, calling the API of /repo/js/src.
// Usage: node server.mjs REPO
import { createRequire } from 'node:module'
import { fileURLToPath } from 'node:url'
import { join } from 'node:path'
import { createInterface } from 'node:readline'
import * as dom from './dom.mjs'

const require = createRequire('/opt/veriftools/node/node_modules/')
const { buildSync } = require('esbuild')
const here = fileURLToPath(new URL('.', import.meta.url))
const out = buildSync({
  entryPoints: [join(process.argv[2], 'js/src/index.ts')],
  bundle: true,
  write: false,
  format: 'cjs',
  platform: 'neutral',
  target: 'es2022',
  logLevel: 'silent',
  alias: { messageformat: join(here, 'stubs/messageformat/index.js'), '@fluent/syntax': join(here, 'stubs/fluent-syntax') }
})
Object.assign(globalThis, dom)
const module = { exports: {} }
new Function('module', 'exports', out.outputFiles[0].text)(module, module.exports)
const api = module.exports

function call({ fn, args, ftl, mf2, collect, frozen }) {
  globalThis.__ftl = ftl ?? {}
  globalThis.__mf2 = mf2 ?? {}
  const before = frozen ? JSON.stringify(args) : ''
  const errors = []
  const onError = (error) => errors.push(describe(error))
  if (collect === 'option') args.push({ onError })
  else if (collect) args.push(onError)
  let res
  try {
    const value = api[fn](...args)
    res = { value: value === undefined ? null : value }
  } catch (error) {
    res = { error: describe(error) }
  }
  if (collect) res.errors = errors
  if (frozen) {
    if (collect) args.pop()
    res.mutated = JSON.stringify(args) !== before
    const own = objects(args, new Set())
    res.shared = [...objects(res.value, new Set())].some((obj) => own.has(obj))
  }
  return res
}
const objects = (value, set) => {
  if (value && typeof value === 'object' && !set.has(value)) {
    set.add(value)
    for (const v of Object.values(value)) objects(v, set)
  }
  return set
}
const describe = (error) => ({
  type: error instanceof api.ParseError ? 'ParseError' : error instanceof api.SerializeError ? 'SerializeError' : (error?.constructor?.name ?? typeof error),
  message: String(error?.message ?? error),
  range: error?.range ?? null,
  pos: error?.pos ?? null
})

for await (const line of createInterface({ input: process.stdin })) {
  process.stdout.write(JSON.stringify(call(JSON.parse(line))) + '\n')
}
