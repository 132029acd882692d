// Stands in for the messageformat package, which is not installed:
// the data model of the source comes with the request (made by the MF2 parser of the Python package).
export class MessageSyntaxError extends Error {
  constructor(message, start, end) {
    super(message)
    this.start = start
    this.end = end
  }
}
export function parseMessage(src) {
  const res = globalThis.__mf2[src]
  if (res === undefined) throw new Error(`No data model for ${JSON.stringify(src)}`)
  if (res.error) throw new MessageSyntaxError(res.error, res.start, res.end)
  return structuredClone(res.model)
}
export const Model = {}
