// Stands in for @fluent/syntax, which is not installed: the classes of its syntax tree.
// The trees come with the request (made by the fluent.syntax Python package, which has the same tree).
export class BaseNode {}
class SyntaxNode extends BaseNode {}
export class Resource extends SyntaxNode {}
export class Entry extends SyntaxNode {}
export class Message extends Entry {}
export class Term extends Entry {}
export class Pattern extends SyntaxNode {}
export class PatternElement extends SyntaxNode {}
export class TextElement extends PatternElement {}
export class Placeable extends PatternElement {}
export class BaseLiteral extends SyntaxNode {}
export class StringLiteral extends BaseLiteral {
  parse() {
    const value = this.value.replace(/\\(?:([\\"])|u([0-9a-fA-F]{4})|U([0-9a-fA-F]{6}))/g, (_, ch, u4, u6) => {
      if (ch) return ch
      const code = parseInt(u4 ?? u6, 16)
      return code <= 0xd7ff || 0xe000 <= code ? String.fromCodePoint(code) : '\ufffd'
    })
    return { value }
  }
}
export class NumberLiteral extends BaseLiteral {
  parse() {
    return { value: parseFloat(this.value) }
  }
}
export class MessageReference extends SyntaxNode {}
export class TermReference extends SyntaxNode {}
export class VariableReference extends SyntaxNode {}
export class FunctionReference extends SyntaxNode {}
export class SelectExpression extends SyntaxNode {}
export class CallArguments extends SyntaxNode {}
export class Attribute extends SyntaxNode {}
export class Variant extends SyntaxNode {}
export class NamedArgument extends SyntaxNode {}
export class Identifier extends SyntaxNode {}
export class BaseComment extends Entry {}
export class Comment extends BaseComment {}
export class GroupComment extends BaseComment {}
export class ResourceComment extends BaseComment {}
export class Junk extends SyntaxNode {}
export class Span extends BaseNode {}
export class Annotation extends SyntaxNode {}

const classes = {
  Message, Term, Pattern, TextElement, Placeable, StringLiteral, NumberLiteral, MessageReference, TermReference,
  VariableReference, FunctionReference, SelectExpression, CallArguments, Attribute, Variant, NamedArgument, Identifier,
  Comment, GroupComment, ResourceComment, Junk, Span, Annotation
}
export function build(json) {
  if (Array.isArray(json)) return json.map(build)
  if (!json || typeof json !== 'object') return json
  const node = new classes[json.type]()
  for (const [key, value] of Object.entries(json)) node[key] = build(value)
  return node
}
