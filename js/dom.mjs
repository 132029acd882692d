// The part of the DOM which the android and xliff modules of @mozilla/l10n need, for Node.
// An XML parser without DTDs, and the serialization algorithm of browsers for documents without namespace fixups.

const NAME = /[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u{10000}-\u{EFFFF}][-:A-Z_a-z.0-9\xB7\xC0-\xD6\xD8-\xF6\xF8-\u037D\u037F-\u1FFF\u200C\u200D\u203F\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u{10000}-\u{EFFFF}]*/uy
const NOT_CHAR = /[^\t\n\r\x20-\uD7FF\uE000-\uFFFD\u{10000}-\u{10FFFF}]/u
const PREDEFINED = { amp: '&', lt: '<', gt: '>', apos: "'", quot: '"' }

class NodeList extends Array {
  item(i) {
    return this[i] ?? null
  }
}

export class Node {
  parentNode = null
  ownerDocument = null
  childNodes = new NodeList()
  static ELEMENT_NODE = 1
  static TEXT_NODE = 3
  static CDATA_SECTION_NODE = 4
  static PROCESSING_INSTRUCTION_NODE = 7
  static COMMENT_NODE = 8
  static DOCUMENT_NODE = 9
  get parentElement() {
    return this.parentNode instanceof Element ? this.parentNode : null
  }
  get firstChild() {
    return this.childNodes[0] ?? null
  }
  get lastChild() {
    return this.childNodes.at(-1) ?? null
  }
  get nextSibling() {
    const sib = this.parentNode?.childNodes
    return sib?.[sib.indexOf(this) + 1] ?? null
  }
  get previousSibling() {
    const sib = this.parentNode?.childNodes
    return sib?.[sib.indexOf(this) - 1] ?? null
  }
  hasChildNodes() {
    return this.childNodes.length > 0
  }
  remove() {
    this.parentNode?.removeChild(this)
  }
  removeChild(node) {
    const i = this.childNodes.indexOf(node)
    if (i < 0) throw new DOMException('Not a child', 'NotFoundError')
    this.childNodes.splice(i, 1)
    node.parentNode = null
    return node
  }
  insertBefore(node, ref) {
    node.remove()
    const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length
    if (i < 0) throw new DOMException('Not a child', 'NotFoundError')
    this.childNodes.splice(i, 0, node)
    node.parentNode = this
    return node
  }
  appendChild(node) {
    return this.insertBefore(node, null)
  }
  replaceChild(node, old) {
    this.insertBefore(node, old)
    return this.removeChild(old)
  }
  append(...nodes) {
    for (const n of nodes) this.appendChild(typeof n === 'string' ? new Text(n) : n)
  }
  prepend(...nodes) {
    const ref = this.firstChild
    for (const n of nodes) this.insertBefore(typeof n === 'string' ? new Text(n) : n, ref)
  }
  replaceChildren(...nodes) {
    for (const n of [...this.childNodes]) n.remove()
    this.append(...nodes)
  }
  normalize() {
    for (const n of [...this.childNodes]) {
      if (n.nodeType !== 3) n.normalize()
      else if (!n.data) n.remove()
      else if (n.previousSibling?.nodeType === 3) {
        n.previousSibling.data += n.data
        n.remove()
      }
    }
  }
  get textContent() {
    return this.childNodes.map((n) => (n.nodeType === 8 || n.nodeType === 7 ? '' : n.textContent)).join('')
  }
  set textContent(str) {
    this.replaceChildren(...(str ? [new Text(str)] : []))
  }
}

class CharacterData extends Node {
  constructor(data = '') {
    super()
    this.data = String(data)
  }
  get length() {
    return this.data.length
  }
  get nodeValue() {
    return this.data
  }
  set nodeValue(str) {
    this.data = str
  }
  get textContent() {
    return this.data
  }
  set textContent(str) {
    this.data = str
  }
  appendData(str) {
    this.data += str
  }
}

export class Text extends CharacterData {
  nodeType = 3
  nodeName = '#text'
  get wholeText() {
    return this.data
  }
}
export class CDATASection extends Text {
  nodeType = 4
  nodeName = '#cdata-section'
}
export class Comment extends CharacterData {
  nodeType = 8
  nodeName = '#comment'
}
export class ProcessingInstruction extends CharacterData {
  nodeType = 7
}

export class Element extends Node {
  nodeType = 1
  attributes = new NodeList()
  constructor(namespaceURI, tagName) {
    super()
    this.namespaceURI = namespaceURI
    this.tagName = this.nodeName = tagName
    const i = tagName.indexOf(':')
    this.prefix = i < 0 ? null : tagName.slice(0, i)
    this.localName = tagName.slice(i + 1)
  }
  get children() {
    return this.childNodes.filter((n) => n.nodeType === 1)
  }
  get childElementCount() {
    return this.children.length
  }
  get firstElementChild() {
    return this.children[0] ?? null
  }
  get lastElementChild() {
    return this.children.at(-1) ?? null
  }
  hasAttributes() {
    return this.attributes.length > 0
  }
  hasAttribute(name) {
    return this.attributes.some((a) => a.name === name)
  }
  getAttributeNames() {
    return this.attributes.map((a) => a.name)
  }
  getAttribute(name) {
    return this.attributes.find((a) => a.name === name)?.value ?? null
  }
  setAttribute(name, value) {
    checkName(name)
    const prev = this.attributes.find((a) => a.name === name)
    if (prev) prev.value = String(value)
    else this.attributes.push({ name, localName: name.replace(/^.*?:/, ''), value: String(value) })
  }
  setAttributeNS(ns, name, value) {
    this.setAttribute(name, value)
  }
  removeAttribute(name) {
    const i = this.attributes.findIndex((a) => a.name === name)
    if (i >= 0) this.attributes.splice(i, 1)
  }
  getElementsByTagName(name) {
    return this.children.flatMap((c) => [...(name === '*' || c.tagName === name ? [c] : []), ...c.getElementsByTagName(name)])
  }
  querySelectorAll(name) {
    return this.getElementsByTagName(name)
  }
  querySelector(name) {
    return this.getElementsByTagName(name)[0] ?? null
  }
  get innerHTML() {
    return this.childNodes.map(serialize).join('')
  }
  get outerHTML() {
    return serialize(this)
  }
}

export class Document extends Node {
  nodeType = 9
  nodeName = '#document'
  get documentElement() {
    return this.childNodes.find((n) => n.nodeType === 1) ?? null
  }
  createElement(name) {
    checkName(name)
    return new Element(null, name)
  }
  createElementNS(ns, name) {
    checkName(name)
    if (name.includes(':') && (!ns || !/^[^:]+:[^:]+$/.test(name))) throw new DOMException(`Bad namespace for ${name}`, 'NamespaceError')
    return new Element(ns || null, name)
  }
  createTextNode(str) {
    return new Text(str)
  }
  createCDATASection(str) {
    return new CDATASection(str)
  }
  getElementsByTagName(name) {
    const root = this.documentElement
    return root ? [...(name === '*' || root.tagName === name ? [root] : []), ...root.getElementsByTagName(name)] : []
  }
  querySelectorAll(name) {
    return this.getElementsByTagName(name)
  }
  querySelector(name) {
    return this.getElementsByTagName(name)[0] ?? null
  }
}

function checkName(name) {
  NAME.lastIndex = 0
  const m = NAME.exec(name)
  if (!m || m[0] !== name) throw new DOMException(`Invalid name ${JSON.stringify(name)}`, 'InvalidCharacterError')
}


class XMLError extends Error {}

/** A strict parser of XML 1.0 documents with namespaces and without a DTD. */
class Parser {
  constructor(src) {
    this.pos = 0
    if (NOT_CHAR.test(src)) this.fail('Invalid character')
    this.src = src.replace(/\r\n?/g, '\n')
  }

  fail(what) {
    throw new XMLError(`${what} at ${this.pos}`)
  }

  at(str) {
    return this.src.startsWith(str, this.pos)
  }

  expect(str) {
    if (!this.at(str)) this.fail(`${str} expected`)
    this.pos += str.length
  }

  until(str) {
    const end = this.src.indexOf(str, this.pos)
    if (end < 0) this.fail(`${str} missing`)
    const res = this.src.slice(this.pos, end)
    this.pos = end + str.length
    return res
  }

  space() {
    const start = this.pos
    while (/[ \t\n]/.test(this.src[this.pos] ?? '')) this.pos += 1
    return this.pos > start
  }

  name() {
    NAME.lastIndex = this.pos
    const m = NAME.exec(this.src)
    if (!m) this.fail('Name expected')
    this.pos += m[0].length
    return m[0]
  }

  reference() {
    this.expect('&')
    const m = /^#(?:x([0-9a-fA-F]+)|([0-9]+));/.exec(this.src.slice(this.pos, this.pos + 20))
    if (m) {
      const code = m[1] ? parseInt(m[1], 16) : parseInt(m[2], 10)
      if (code > 0x10ffff || NOT_CHAR.test(String.fromCodePoint(code))) this.fail('Invalid character reference')
      this.pos += m[0].length
      return String.fromCodePoint(code)
    }
    const ref = this.name()
    this.expect(';')
    if (!Object.hasOwn(PREDEFINED, ref)) this.fail(`Undefined entity ${ref}`)
    return PREDEFINED[ref]
  }

  attributeValue() {
    const quote = this.src[this.pos]
    if (quote !== '"' && quote !== "'") this.fail('Quote expected')
    this.pos += 1
    let value = ''
    while (!this.at(quote)) {
      const ch = this.src[this.pos]
      if (ch === undefined || ch === '<') this.fail('Bad attribute value')
      if (ch === '&') value += this.reference()
      else {
        value += /[\t\n]/.test(ch) ? ' ' : ch
        this.pos += 1
      }
    }
    this.pos += 1
    return value
  }

  /** After the `<`. Returns the new element, and whether it is an empty-element tag. */
  startTag(scope) {
    const tag = this.name()
    const attributes = []
    for (;;) {
      const spaced = this.space()
      if (this.at('>') || this.at('/>')) break
      if (!spaced) this.fail('Space expected')
      const name = this.name()
      this.space()
      this.expect('=')
      this.space()
      if (attributes.some((a) => a.name === name)) this.fail(`Duplicate attribute ${name}`)
      attributes.push({ name, value: this.attributeValue() })
    }
    const inner = { ...scope }
    for (const { name, value } of attributes) {
      if (name === 'xmlns') inner[''] = value
      else if (name.startsWith('xmlns:')) inner[name.slice(6)] = value
    }
    for (const name of [tag, ...attributes.map((a) => a.name)]) {
      if (!/^[^:]+(:[^:]+)?$/.test(name)) this.fail(`Bad qualified name ${name}`)
      const prefix = name.includes(':') ? name.split(':')[0] : null
      if (prefix && prefix !== 'xmlns' && !inner[prefix]) this.fail(`Undeclared namespace prefix ${prefix}`)
    }
    const el = new Element((tag.includes(':') ? inner[tag.split(':')[0]] : inner['']) || null, tag)
    for (const { name, value } of attributes) el.setAttribute(name, value)
    const empty = this.at('/')
    this.expect(empty ? '/>' : '>')
    return { el, inner, empty }
  }

  document() {
    const doc = new Document()
    const stack = [{ node: doc, scope: { xml: 'http://www.w3.org/XML/1998/namespace' } }]
    const addText = (text) => {
      const { node } = stack.at(-1)
      if (node === doc) {
        if (/[^ \t\n]/.test(text)) this.fail('Text outside the root element')
      } else if (node.lastChild?.nodeType === 3) node.lastChild.data += text
      else node.appendChild(new Text(text))
    }
    while (this.pos < this.src.length) {
      const { node, scope } = stack.at(-1)
      if (this.at('<!--')) {
        this.pos += 4
        const comment = this.until('--')
        this.expect('>')
        node.appendChild(new Comment(comment))
      } else if (this.at('<![CDATA[')) {
        if (node === doc) this.fail('CDATA outside the root element')
        this.pos += 9
        node.appendChild(new CDATASection(this.until(']]>')))
      } else if (this.at('<?')) {
        this.pos += 2
        const target = this.name()
        if (/^xml$/i.test(target)) this.fail('Bad processing instruction')
        if (!this.at('?>') && !this.space()) this.fail('Space expected')
        node.appendChild(new ProcessingInstruction(this.until('?>')))
      } else if (this.at('</')) {
        this.pos += 2
        const tag = this.name()
        this.space()
        this.expect('>')
        if (node === doc || node.tagName !== tag) this.fail(`Mismatched </${tag}>`)
        stack.pop()
      } else if (this.at('<')) {
        if (node === doc && doc.documentElement) this.fail('Content after the root element')
        this.pos += 1
        const { el, inner, empty } = this.startTag(scope)
        node.appendChild(el)
        if (!empty) stack.push({ node: el, scope: inner })
      } else if (this.at('&')) {
        const ref = this.reference()
        if (node === doc) this.fail('Reference outside the root element')
        addText(ref)
      } else {
        const m = /[<&]/.exec(this.src.slice(this.pos))
        const text = this.src.slice(this.pos, m ? this.pos + m.index : undefined)
        if (text.includes(']]>')) this.fail(']]> in text')
        this.pos += text.length
        addText(text)
      }
    }
    if (stack.length > 1 || !doc.documentElement) this.fail('Unclosed element')
    return doc
  }
}

export class DOMParser {
  parseFromString(src, type) {
    if (!/xml/.test(type)) throw new TypeError('Only XML is supported')
    try {
      return new Parser(String(src)).document()
    } catch (error) {
      if (!(error instanceof XMLError)) throw error
      const doc = new Document()
      const el = doc.appendChild(new Element('http://www.mozilla.org/newlayout/xml/parsererror.xml', 'parsererror'))
      el.appendChild(new Text(error.message))
      return doc
    }
  }
}

const escapeText = (str) => str.replace(/[&<>]/g, (c) => ({ '&': '&amp;', '<': '&lt;', '>': '&gt;' })[c])
const escapeAttr = (str) =>
  str.replace(/[&<>"\t\n\r]/g, (c) => ({ '&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', '\t': '&#9;', '\n': '&#10;', '\r': '&#13;' })[c])

function serialize(node) {
  switch (node.nodeType) {
    case 1: {
      const attrs = node.attributes.map((a) => ` ${a.name}="${escapeAttr(a.value)}"`).join('')
      const body = node.childNodes.map(serialize).join('')
      return body || node.hasChildNodes() ? `<${node.tagName}${attrs}>${body}</${node.tagName}>` : `<${node.tagName}${attrs}/>`
    }
    case 3:
      return escapeText(node.data)
    case 4:
      return `<![CDATA[${node.data}]]>`
    case 8:
      return `<!--${node.data}-->`
    case 9:
      return node.childNodes.map(serialize).join('')
    default:
      return ''
  }
}

export class XMLSerializer {
  serializeToString(node) {
    return serialize(node)
  }
}
