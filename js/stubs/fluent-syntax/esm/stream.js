// As in @fluent/syntax: a stream in which CRLF is read as LF.
export class FluentParserStream {
  constructor(string) {
    this.string = string
    this.index = 0
    this.peekOffset = 0
  }
  charAt(offset) {
    return this.string[offset] === '\r' && this.string[offset + 1] === '\n' ? '\n' : this.string[offset]
  }
  currentChar() {
    return this.charAt(this.index)
  }
  currentPeek() {
    return this.charAt(this.index + this.peekOffset)
  }
  next() {
    this.peekOffset = 0
    if (this.string[this.index] === '\r' && this.string[this.index + 1] === '\n') this.index++
    this.index++
    return this.string[this.index]
  }
  peek() {
    if (this.string[this.index + this.peekOffset] === '\r' && this.string[this.index + this.peekOffset + 1] === '\n') this.peekOffset++
    this.peekOffset++
    return this.string[this.index + this.peekOffset]
  }
  resetPeek(offset = 0) {
    this.peekOffset = offset
  }
  skipToPeek() {
    this.index += this.peekOffset
    this.peekOffset = 0
  }
  skipBlank() {
    while (/[ \n]/.test(this.currentChar() ?? '')) this.next()
  }
  expectChar(ch) {
    if (this.currentChar() === ch) return void this.next()
    throw new ParseError('E0003', ch)
  }
}
export class ParseError extends Error {
  constructor(code, ...args) {
    super(`${code} ${args.join(' ')}`)
    this.code = code
    this.args = args
  }
}
