// The editor's side: a stand-in for the part of VS Code which the plugins
// use, driven by scripts on stdin (a JSON message per line). Calls of the
// native module go out on stdout, and come back on stdin.
const fs = require('fs')
const vm = require('vm')

let pending = Buffer.alloc(0)
const chunk = Buffer.alloc(1 << 16)
function read() {
    for (;;) {
        let nl = pending.indexOf(10)
        if (nl >= 0) {
            let line = pending.slice(0, nl).toString()
            pending = pending.slice(nl + 1)
            return JSON.parse(line)
        }
        let n = fs.readSync(0, chunk, 0, chunk.length, null)
        if (n == 0) process.exit(0)
        pending = Buffer.concat([pending, chunk.slice(0, n)])
    }
}
function write(message) {
    let data = Buffer.from(JSON.stringify(message) + '\n')
    for (let at = 0; at < data.length;) at += fs.writeSync(1, data, at)
}

// ---- the native module

class Native {
    constructor(id) { this.id = id }
}
let callbacks = []
function encode(v) {
    if (v === undefined) return {}
    if (v instanceof Native) return { o: v.id }
    if (typeof v == 'function') return { f: callbacks.push(v) - 1 }
    return { j: v }
}
function decode(v) {
    if ('throw' in v) throw new Error(v.throw)
    if ('o' in v) return new Native(v.o)
    if ('j' in v) return v.j
    return undefined
}
function makeBackend(names) {
    let backend = {}
    for (let name of names) {
        backend[name] = (...args) => {
            write({ call: name, args: args.map(encode) })
            return decode(read())
        }
    }
    return backend
}

// ---- the editor

class Position {
    constructor(line, character) {
        if (!(line >= 0 && character >= 0)) throw new Error(`illegal position ${line}:${character}`)
        this.line = line
        this.character = character
        Object.freeze(this)
    }
    isBefore(o) { return this.line < o.line || this.line == o.line && this.character < o.character }
    isBeforeOrEqual(o) { return !o.isBefore(this) }
    isAfter(o) { return o.isBefore(this) }
    isAfterOrEqual(o) { return !this.isBefore(o) }
    isEqual(o) { return this.line == o.line && this.character == o.character }
    compareTo(o) { return this.isBefore(o) ? -1 : this.isEqual(o) ? 0 : 1 }
    translate(l = 0, c = 0) { return new Position(this.line + l, this.character + c) }
    with(line = this.line, character = this.character) { return new Position(line, character) }
}
class Range {
    constructor(a, b, c, d) {
        if (typeof a == 'number') {
            a = new Position(a, b)
            b = new Position(c, d)
        }
        if (!(a instanceof Position && b instanceof Position)) throw new Error('invalid arguments of Range')
        if (b.isBefore(a)) [a, b] = [b, a]
        this.start = a
        this.end = b
    }
    get isEmpty() { return this.start.isEqual(this.end) }
    get isSingleLine() { return this.start.line == this.end.line }
    isEqual(o) { return this.start.isEqual(o.start) && this.end.isEqual(o.end) }
    contains(o) {
        return o instanceof Range
            ? this.contains(o.start) && this.contains(o.end)
            : !o.isBefore(this.start) && !this.end.isBefore(o)
    }
    with(start = this.start, end = this.end) { return new Range(start, end) }
}
class Selection extends Range {
    constructor(a, b, c, d) {
        if (typeof a == 'number') {
            a = new Position(a, b)
            b = new Position(c, d)
        }
        super(a, b)
        this.anchor = a
        this.active = b
    }
    get isReversed() { return this.anchor !== this.start }
}
class Uri {
    constructor(text, fsPath) {
        this.text = text
        this.fsPath = fsPath
        this.path = fsPath
        this.scheme = text.slice(0, text.indexOf(':'))
    }
    static parse(text) { return new Uri(text, text.replace(/^[^:]*:\/\//, '')) }
    static file(path) { return new Uri('file://' + path, path) }
    toString() { return this.text }
}
class Emitter {
    constructor() {
        this.listeners = []
        this.event = (listener, self, disposables) => {
            let it = (e) => listener.call(self, e)
            this.listeners.push(it)
            let disposable = { dispose: () => { this.listeners = this.listeners.filter((l) => l !== it) } }
            if (disposables) disposables.push(disposable)
            return disposable
        }
    }
    fire(e) { for (let l of this.listeners.slice()) l(e) }
    dispose() { this.listeners = [] }
}
class TextEdit {
    constructor(range, newText) {
        this.range = range
        this.newText = newText
    }
    static replace(range, text) { return new TextEdit(range, text) }
    static insert(position, text) { return new TextEdit(new Range(position, position), text) }
    static delete(range) { return new TextEdit(range, '') }
}
class Diagnostic {
    constructor(range, message, severity = 0) { Object.assign(this, { range, message, severity }) }
}
class Location {
    constructor(uri, range) { Object.assign(this, { uri, range }) }
}
class SymbolInformation {
    constructor(name, kind, range, uriOrContainer, container) {
        this.name = name
        this.kind = kind
        this.range = range
        this.uri = uriOrContainer instanceof Uri ? uriOrContainer : container
        this.location = new Location(this.uri, range)
    }
}

class Document {
    constructor(uri, languageId, text) {
        this.uri = uri
        this.fileName = uri.fsPath
        this.languageId = languageId
        this.version = 1
        this.isDirty = false
        this.isClosed = false
        this.eolText = text.includes('\r\n') ? '\r\n' : '\n'
        this.eol = this.eolText == '\n' ? 1 : 2
        this.setText(text)
    }
    setText(text) {
        this.text = this.normalize(text)
        this.lines = this.text.split(this.eolText)
        this.starts = []
        let at = 0
        for (let line of this.lines) {
            this.starts.push(at)
            at += line.length + this.eolText.length
        }
    }
    normalize(text) { return text.replace(/\r\n|\r|\n/g, this.eolText) }
    get lineCount() { return this.lines.length }
    lineAt(it) {
        let n = typeof it == 'number' ? it : it.line
        return { text: this.lines[n], range: new Range(n, 0, n, this.lines[n].length), lineNumber: n }
    }
    validatePosition(p) {
        if (p.line >= this.lines.length) return new Position(this.lines.length - 1, this.lines[this.lines.length - 1].length)
        if (p.character > this.lines[p.line].length) return new Position(p.line, this.lines[p.line].length)
        return p
    }
    validateRange(r) { return new Range(this.validatePosition(r.start), this.validatePosition(r.end)) }
    offsetAt(p) {
        p = this.validatePosition(p)
        return this.starts[p.line] + p.character
    }
    positionAt(offset) {
        offset = Math.max(0, Math.floor(offset))
        let line = this.starts.length - 1
        while (this.starts[line] > offset) line--
        return new Position(line, Math.min(offset - this.starts[line], this.lines[line].length))
    }
    getText(range) {
        if (!range) return this.text
        return this.text.slice(this.offsetAt(range.start), this.offsetAt(range.end))
    }
}

class Editor {
    constructor(world, document) {
        this.world = world
        this.document = document
        this.selections = [new Selection(0, 0, 0, 0)]
        this.decorations = new Map()
    }
    get selection() { return this.selections[0] }
    set selection(it) { this.selections = [it] }
    setDecorations(type, ranges) { this.decorations.set(type, ranges) }
    async edit(f) {
        let edits = []
        f({
            replace: (range, text) => edits.push(new TextEdit(range instanceof Position ? new Range(range, range) : range, text)),
            insert: (position, text) => edits.push(TextEdit.insert(position, text)),
            delete: (range) => edits.push(TextEdit.delete(range)),
        })
        this.world.applyEdits(this.document, edits)
        return true
    }
}

class World {
    constructor(names, folders) {
        this.documents = new Map()
        this.editors = new Map()
        this.commands = new Map()
        this.contents = new Map()
        this.providers = { codeActions: [], symbols: [], format: [], references: [], definition: [], workspaceSymbols: [], onType: [] }
        this.collections = []
        this.status = []
        this.active = undefined
        this.shown = []
        this.refreshes = []
        this.emitters = {}
        for (let e of ['change', 'open', 'close', 'save', 'activeEditor', 'selection']) this.emitters[e] = new Emitter()
        this.backend = makeBackend(names)
        this.folders = folders
        this.vscode = this.api()
    }

    api() {
        let self = this
        let nothing = { dispose() { } }
        let provider = (key) => (...args) => {
            let it = args.length == 1 ? { provider: args[0] } : { language: args[0], provider: args[1], rest: args.slice(2) }
            self.providers[key].push(it)
            return nothing
        }
        return {
            Position, Range, Selection, Uri, EventEmitter: Emitter, TextEdit, Diagnostic, Location, SymbolInformation,
            DiagnosticSeverity: { Error: 0, Warning: 1, Information: 2, Hint: 3 },
            SymbolKind: { File: 0, Module: 1, Namespace: 2, Package: 3, Class: 4, Method: 5, Function: 11, Variable: 12, Struct: 22 },
            StatusBarAlignment: { Left: 1, Right: 2 },
            ViewColumn: { Active: -1, One: 1, Two: 2, Three: 3 },
            EndOfLine: { LF: 1, CRLF: 2 },
            workspace: {
                get workspaceFolders() { return self.folders && self.folders.map((f, index) => ({ uri: Uri.file(f), name: f, index })) },
                get textDocuments() { return [...self.documents.values()] },
                onDidChangeTextDocument: this.emitters.change.event,
                onDidOpenTextDocument: this.emitters.open.event,
                onDidCloseTextDocument: this.emitters.close.event,
                onDidSaveTextDocument: this.emitters.save.event,
                registerTextDocumentContentProvider(scheme, provider) {
                    self.contents.set(scheme, provider)
                    // an open document is asked for again
                    provider.onDidChange((uri) => {
                        let doc = self.documents.get(uri.toString())
                        if (!doc) return
                        let refresh = async () => {
                            let text = await provider.provideTextDocumentContent(uri)
                            if (text != null) doc.setText(text)
                        }
                        self.refreshes.push(refresh().catch(() => { }))
                    })
                    return nothing
                },
                async openTextDocument(uri) {
                    let old = self.documents.get(uri.toString())
                    if (old) return old
                    let text = await self.contents.get(uri.scheme).provideTextDocumentContent(uri)
                    let doc = new Document(uri, 'plaintext', text || '')
                    self.documents.set(uri.toString(), doc)
                    self.emitters.open.fire(doc)
                    return doc
                },
            },
            window: {
                get activeTextEditor() { return self.active },
                get visibleTextEditors() { return self.active ? [self.active] : [] },
                onDidChangeActiveTextEditor: this.emitters.activeEditor.event,
                onDidChangeTextEditorSelection: this.emitters.selection.event,
                createTextEditorDecorationType(options) { return { options, dispose() { } } },
                createStatusBarItem() {
                    let item = { text: '', show() { }, hide() { }, dispose() { } }
                    self.status.push(item)
                    return item
                },
                async showTextDocument(doc) { self.shown.push(doc) },
            },
            commands: {
                registerCommand(name, f) {
                    self.commands.set(name, f)
                    return nothing
                },
            },
            languages: {
                createDiagnosticCollection(name) {
                    let all = new Map()
                    let it = {
                        name,
                        all,
                        set(uri, list) { all.set(uri.toString(), list || []) },
                        get(uri) { return all.get(uri.toString()) },
                        delete(uri) { all.delete(uri.toString()) },
                        clear() { all.clear() },
                        dispose() { },
                    }
                    self.collections.push(it)
                    return it
                },
                registerCodeActionsProvider: provider('codeActions'),
                registerDocumentSymbolProvider: provider('symbols'),
                registerDocumentFormattingEditProvider: provider('format'),
                registerReferenceProvider: provider('references'),
                registerDefinitionProvider: provider('definition'),
                registerWorkspaceSymbolProvider: provider('workspaceSymbols'),
                registerOnTypeFormattingEditProvider: provider('onType'),
            },
        }
    }

    load(script) {
        let require = (name) => {
            if (name == 'vscode') return this.vscode
            if (name == '../../native') return this.backend
            if (name == 'util') return { log() { } }
            throw new Error(`no module ${name}`)
        }
        let module = { exports: {} }
        script(require, module, module.exports, { log() { }, error() { }, warn() { } })
        this.context = { subscriptions: [] }
        module.exports.activate(this.context)
    }

    // The changes of one event, as ranges of the document before it.
    change(doc, edits) {
        let changes = edits.map((e) => ({
            range: e.range,
            start: doc.offsetAt(e.range.start),
            end: doc.offsetAt(e.range.end),
            text: doc.normalize(e.newText),
        }))
        // from the end to the start; several insertions at one place keep their order
        let order = changes.map((c, i) => [c, i])
        order.sort(([a, i], [b, j]) => b.start - a.start || b.end - a.end || j - i)
        order = order.map(([c]) => c)
        for (let i = 1; i < order.length; i++) {
            if (order[i].end > order[i - 1].start) throw new Error('Overlapping ranges are not allowed!')
        }
        let text = doc.text
        for (let c of order) text = text.slice(0, c.start) + c.text + text.slice(c.end)
        doc.setText(text)
        doc.version++
        doc.isDirty = true
        this.emitters.change.fire({
            document: doc,
            contentChanges: order.map((c) => ({
                range: c.range,
                rangeOffset: c.start,
                rangeLength: c.end - c.start,
                text: c.text,
            })),
        })
    }

    applyEdits(doc, edits) {
        edits = edits.filter((e) => !(e.range.isEmpty && e.newText == ''))
        if (edits.length > 0) this.change(doc, edits)
    }
}

// ---- scripts

const P = (p) => [p.line, p.character]
const R = (r) => [P(r.start), P(r.end)]
const pos = (p) => new Position(p[0], p[1])
const range = (r) => new Range(pos(r[0]), pos(r[1]))
const E = (edits) => edits == null ? null : edits.map((e) => [R(e.range), e.newText])

const ops = {
    // the editor has the document before the plugin starts
    async present(w, m) {
        let uri = Uri.file(m.path)
        w.documents.set(uri.toString(), new Document(uri, m.language, m.text))
    },
    async start(w, m) { w.load(w.script) },
    async open(w, m) {
        let uri = Uri.file(m.path)
        let doc = new Document(uri, m.language, m.text)
        w.documents.set(uri.toString(), doc)
        w.emitters.open.fire(doc)
    },
    async close(w, m) {
        let doc = w.doc(m)
        w.documents.delete(doc.uri.toString())
        w.editors.delete(doc.uri.toString())
        doc.isClosed = true
        if (w.active && w.active.document === doc) {
            w.active = undefined
            w.emitters.activeEditor.fire(undefined)
        }
        w.emitters.close.fire(doc)
    },
    async activate(w, m) {
        if (m.path == null) {
            w.active = undefined
        } else {
            let doc = w.doc(m)
            let key = doc.uri.toString()
            if (!w.editors.has(key)) w.editors.set(key, new Editor(w, doc))
            w.active = w.editors.get(key)
        }
        w.emitters.activeEditor.fire(w.active)
    },
    async change(w, m) {
        let doc = w.doc(m)
        w.change(doc, m.changes.map(([start, end, text]) => new TextEdit(new Range(doc.positionAt(start), doc.positionAt(end)), text)))
    },
    async save(w, m) {
        let doc = w.doc(m)
        doc.isDirty = false
        w.emitters.save.fire(doc)
    },
    async select(w, m) {
        w.active.selections = m.selections.map(([a, b]) => new Selection(pos(a), pos(b)))
        w.emitters.selection.fire({ textEditor: w.active, selections: w.active.selections })
        return w.status.map((s) => s.text)
    },
    async text(w, m) { return w.doc(m).getText() },
    // what the user sees without asking
    async shown(w, m) {
        let decorations = w.active ? [...w.active.decorations.values()].map((rs) => rs.map(R)) : []
        let diagnostics = {}
        for (let c of w.collections) {
            for (let [uri, list] of c.all) {
                diagnostics[uri] = (diagnostics[uri] || []).concat(list.map((d) => [R(d.range), d.message, d.severity]))
            }
        }
        return { decorations, diagnostics }
    },
    async symbols(w, m) {
        let doc = w.doc(m)
        let out = []
        for (let { provider } of w.providers.symbols) {
            for (let s of provider.provideDocumentSymbols(doc) || []) out.push([s.name, R(s.location.range)])
        }
        return out
    },
    async format(w, m) {
        let doc = w.doc(m)
        return w.providers.format.map(({ provider }) => E(provider.provideDocumentFormattingEdits(doc)))
    },
    async applyFormat(w, m) {
        let doc = w.doc(m)
        for (let { provider } of w.providers.format) w.applyEdits(doc, provider.provideDocumentFormattingEdits(doc) || [])
    },
    // titles of the actions
    async actions(w, m) {
        let doc = w.doc(m)
        let out = []
        for (let { provider } of w.providers.codeActions) {
            for (let a of provider.provideCodeActions(doc, range(m.range), {}) || []) out.push(a.title)
        }
        return out
    },
    async applyAction(w, m) {
        let doc = w.doc(m)
        for (let { provider } of w.providers.codeActions) {
            for (let a of provider.provideCodeActions(doc, range(m.range), {}) || []) {
                if (a.title == m.title) {
                    w.pending = w.commands.get(a.command)(...a.arguments)
                    if (!m.later) await w.pending
                    return true
                }
            }
        }
        return false
    },
    // an action which was offered for an earlier version, perhaps
    async runAction(w, m) {
        for (let [name, f] of w.commands) {
            if (name.endsWith('.applyContextAction')) await f(range(m.range), m.title)
        }
    },
    async command(w, m) {
        let it = w.commands.get(m.name)(...(m.args || []))
        if (m.later) w.pending = it
        else await it
    },
    async definition(w, m) {
        let doc = w.doc(m)
        return w.providers.definition.map(({ provider }) => {
            let it = provider.provideDefinition(doc, pos(m.at))
            return it == null ? null : [it.uri.toString(), R(it.range)]
        })
    },
    async references(w, m) {
        let doc = w.doc(m)
        let out = []
        for (let { provider } of w.providers.references) {
            for (let l of provider.provideReferences(doc, pos(m.at), {}) || []) out.push([l.uri.toString(), R(l.range)])
        }
        return out
    },
    async onType(w, m) {
        let doc = w.doc(m)
        let out = []
        for (let { provider, rest } of w.providers.onType) {
            if (!rest.includes(m.ch)) continue
            out.push(E(await provider.provideOnTypeFormattingEdits(doc, pos(m.at), m.ch, {})))
        }
        return out
    },
    async applyOnType(w, m) {
        let doc = w.doc(m)
        for (let { provider, rest } of w.providers.onType) {
            if (!rest.includes(m.ch)) continue
            w.applyEdits(doc, await provider.provideOnTypeFormattingEdits(doc, pos(m.at), m.ch, {}) || [])
        }
    },
    async workspaceSymbols(w, m) {
        let out = []
        for (let { provider } of w.providers.workspaceSymbols) {
            for (let s of provider.provideWorkspaceSymbols(m.query) || []) out.push([s.name, s.location.uri.fsPath, R(s.location.range)])
        }
        return out
    },
    // once the index has `count` symbols for `query`
    async indexed(w, m) {
        for (let { provider } of w.providers.workspaceSymbols) {
            for (let i = 0; provider.provideWorkspaceSymbols(m.query).length < m.count; i++) {
                if (i > 20000) throw new Error('the index is not complete')
                Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 1)
            }
        }
    },
    async selections(w, m) { return w.active.selections.map(R) },
    async content(w, m) {
        let uri = Uri.parse(m.uri)
        return w.contents.get(uri.scheme).provideTextDocumentContent(uri)
    },
    // what was asked for earlier, once the native tasks are done
    async settle(w, m) {
        for (; ;) {
            await new Promise((resolve) => setImmediate(resolve))
            write({ task: true })
            let it = read()
            if (it == null) break
            let f = callbacks[it.callback]
            let result, error = null
            try { result = decode(it.value) } catch (e) { error = e }
            f(error, result)
        }
        await w.pending
        await Promise.all(w.refreshes)
        let out = [...new Set(w.shown)].map((d) => [d.uri.toString(), d.getText().replace(/\r\n/g, '\n')])
        return out
    },
}

async function run(scripts, message) {
    callbacks = []
    let w = new World(message.names, message.folders)
    w.script = scripts[message.plugin]
    w.doc = (m) => {
        let doc = w.documents.get(Uri.file(m.path).toString())
        if (!doc) throw new Error(`harness: no document ${m.path}`)
        return doc
    }
    let out = []
    for (let m of message.ops) {
        try {
            let it = await ops[m.op](w, m)
            out.push({ ok: it === undefined ? null : it })
        } catch (e) {
            out.push({ error: String(e && e.message || e), stack: String(e && e.stack) })
        }
    }
    return out
}

async function main() {
    let scripts = {}
    let sources = read()
    for (let name in sources) {
        scripts[name] = vm.compileFunction(sources[name], ['require', 'module', 'exports', 'console'], { filename: name })
    }
    for (; ;) {
        let message = read()
        write({ done: await run(scripts, message) })
    }
}
process.on('unhandledRejection', () => { })
main().catch((e) => { console.error(e); process.exit(3) })
