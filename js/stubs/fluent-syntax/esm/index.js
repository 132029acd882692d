import { build } from './ast.js'
import { ParseError } from './stream.js'

export { ParseError }
export { FluentParserStream } from './stream.js'
export * from './ast.js'

export class FluentParser {
  parseEntry(src) {
    const res = globalThis.__ftl[src]
    if (res === undefined) throw new Error(`No syntax tree for ${JSON.stringify(src)}`)
    return build(res)
  }
  getInlineExpression(ps) {
    globalThis.__ps = ps
    const res = globalThis.__ftl[`${ps.index}`]
    if (res === undefined) throw new Error(`No inline expression at ${ps.index}`)
    if (res.end !== undefined) ps.index = res.end
    if (res.error) throw new ParseError(res.error)
    return build(res.ast)
  }
}
