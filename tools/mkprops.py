"""Writes /verif/properties.jsonl (kept as code so the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

TPL, LDR, XML, TXT, IR, UTL = ('kajiki/template.py', 'kajiki/loader.py', 'kajiki/xml_template.py',
    'kajiki/text.py', 'kajiki/ir.py', 'kajiki/util.py')

p('C01', 'Renders in progress at the same time are isolated from each other',
  'Any number of template instances, of the same or of different template classes, may be rendering at once, on '
  'different threads or as partly consumed iterators interleaved on one thread or handed from one thread to another. '
  'Each of them produces exactly the text that its own template and its own context determine, the text it would '
  'produce if it ran alone.',
  ['schedules', 'inputs', 'programs'],
  'every interleaving of every set of renders (distinct instances), every template using any mix of directives, every context',
  'All 142 tests render one instance at a time, in one thread, to completion; no test has two renders in progress.',
  [TPL, UTL, IR],
  [('per-instance globals, switch stack and with stack', 'the mutable state of one render', 'kajiki/template.py _Template.__init__'),
   ('template class', 'compiled functions and base globals shared by every instance', 'kajiki/template.py Template/from_ir')],
  [('functions of the class are re-bound to the globals of each instance', 'kajiki/template.py TplFunc.bind_instance/_bind_globals'),
   ('lazy, per-render generators', 'kajiki/util.py flattener')],
  ['text produced by render() and by iterating the instance'])

p('C02', 'Concurrent compilation gives the same templates as compiling alone',
  'Template sources may be compiled, and their messages extracted for translation, by several threads at once, in any order, after any earlier successful or failed compilations, '
  'and whatever values the process random generator produces. Every compilation and extraction has the outcome it would have had alone in a '
  'fresh process: a template that renders the same text, the same messages, or the same kind of error.',
  ['schedules', 'programs', 'histories'],
  'every interleaving of concurrent compilations, every preceding history of compilations (including failed ones), every sequence of random numbers drawn for internal names',
  'The tests compile one source at a time on the main thread; generated names and parser callbacks never interleave and no compilation follows a failed one in a checked way.',
  [XML, TXT, IR, UTL, 'kajiki/doctype.py', TPL],
  [('name generator', 'names already handed out; drawn with random numbers', 'kajiki/util.py NameGen'),
   ('known document types', 'lazily built strings and patterns shared by the process', 'kajiki/doctype.py')],
  [('thread-local name generator', 'kajiki/util.py NameGen.lcl'), ('one parser, transformer and compiler object per compilation', 'kajiki/xml_template.py XMLTemplate')],
  ['text rendered by the compiled class; exception type of a failed compilation'])

p('C03', 'Rendering leaves no trace: output never depends on what was rendered before',
  'A new render of a template with a given context produces the same text whatever happened earlier in the process: earlier renders of '
  'it or of other templates that completed, raised, were interrupted or were abandoned half way, with the same context object and the same context values '
  '(including values marked as safe markup with literal/Markup). Rendering never modifies the context mapping or the base globals mapping supplied by the caller, and rendering the same '
  'instance a second time gives the same text.',
  ['histories', 'crash_points', 'inputs'],
  'every finite history of complete, failed, interrupted and abandoned renders before the observed one; every context that is shared between them',
  'Tests render each template once or twice with a fresh context and never after a failed or abandoned render; none checks that the context is unchanged or shares a value between renders.',
  [TPL, UTL, IR],
  [('context', 'mapping owned by the caller', 'kajiki/template.py _Template.__init__/_extend/_import'),
   ('base_globals', 'mapping owned by the caller, copied into the class', 'kajiki/template.py from_ir')],
  [('copy of the context into fresh globals per instance', 'kajiki/template.py _Template.__init__'), ('re-iterable literal', 'kajiki/util.py literal')],
  ['text of the observed render', 'the context and base globals mappings after it'])

p('C04', 'An exception in user code surfaces unchanged and truncates output cleanly',
  'When code called by a template (an expression, condition, iterable, function, translator or an interrupt such as KeyboardInterrupt) raises, '
  'the very same exception object reaches whoever is rendering (StopIteration excepted, which Python turns into RuntimeError). The text delivered before it is a prefix of the text of the '
  'undisturbed render, nothing that follows the failing point in the template is evaluated, and renders in progress or started later, '
  'with the same template class, are unaffected.',
  ['fault_sequences', 'crash_points', 'schedules'],
  'every point of every render at which user code can raise or an interrupt can be delivered, any exception type, any other renders in progress',
  'The tests raise in two fixed places (debug.html, debug.txt) and only look at the traceback.',
  [TPL, UTL, IR],
  [('with and switch stacks, attribute collectors', 'partly updated when an exception passes through', 'kajiki/template.py, kajiki/ir.py')],
  [('generators without handlers: exceptions propagate', 'kajiki/util.py flattener, kajiki/template.py _Template.__iter__')],
  ['exception object', 'chunks delivered before it', 'log of user-code calls', 'text of the other renders'])

p('C05', 'With reload on, an import returns the template currently on disk',
  'With a reloading file or package loader, every import returns a template compiled from a content that the file had at some moment between the start '
  'and the end of that import, whatever other imports, edits, deletions, re-creations and clock jumps happen around it. In particular once an edit has '
  'completed, leaving a file with a modification time different from before (newer or older), no later import returns the old template.',
  ['schedules', 'histories', 'fault_sequences'],
  'every interleaving of imports by any number of threads with edits of the files (atomic replacement, in-place rewrite, delete and re-create, restore of an older file), every sequence of modification times in which each edit changes the time',
  'No test edits a template file, none imports from two threads, and none reaches the reload branch with a changed file.',
  [LDR],
  [('cache of template classes', 'name to compiled class', 'kajiki/loader.py Loader.modules'),
   ('recorded modification times', 'what the cached class was compiled from', 'kajiki/loader.py FileLoader._timestamps')],
  [('modification time comparison on import', 'kajiki/loader.py FileLoader.import_'), ('stat before read', 'kajiki/loader.py FileLoader._load')],
  ['text rendered by the class returned from import_/load'])

p('C06', 'A loaded template stays cached: one class while its file is unchanged',
  'As long as the file of a template does not change, all imports of its name through one loader, from any threads, return one and the same class, and its module-level code runs '
  'once. With reload off the first class loaded is returned for ever, whatever happens to the files afterwards, without failing '
  'when the file has disappeared or cannot be read any more.',
  ['schedules', 'histories', 'fault_sequences'],
  'every interleaving of first and repeated imports from any number of threads; every later history of the files and every later I/O fault (reload off)',
  'Tests import a name once per loader; none compares the classes of two imports, races two first imports, or changes a file under reload=False.',
  [LDR],
  [('cache of template classes', 'name to compiled class', 'kajiki/loader.py Loader.modules')],
  [('lookup before load, store after load, under the lock of the loader', 'kajiki/loader.py Loader.import_')],
  ['identity of the class returned by import_/load', 'how often module-level code of a template ran'])

p('C07', 'A failed or interrupted load leaves the loader as if it had not happened',
  'An import that fails (file missing, I/O error, undecodable bytes, malformed template) or is interrupted at any point raises to its own caller, a missing file or I/O error always as IOError/OSError. It caches nothing '
  'wrong: the next import after the cause has gone returns the template that is on disk, fully usable (also for inheritance and inclusion through that loader), and other names are never affected.',
  ['fault_sequences', 'crash_points', 'histories'],
  'every kind of failure, at every system call and at every statement of the load where an interrupt can arrive, first load or reload, followed by recovery',
  'No test makes a load fail and then retries; no I/O error, bad encoding or interrupt is ever injected.',
  [LDR, TXT, XML],
  [('cache and recorded times', 'updated in several steps during a load', 'kajiki/loader.py')],
  [('class is published only after it is complete', 'kajiki/loader.py Loader.import_'), ('missing file raises IOError', 'kajiki/loader.py FileLoader._load')],
  ['exception type of the failing import', 'result of the imports after it'])

p('C08', 'Concurrent loading never fails spuriously and always finishes',
  'While the files it needs exist, are readable and well-formed throughout, no import and no render through a shared loader raises, however many '
  'threads import, reload, render, extend and include at once and however files are concurrently replaced by other well-formed versions. Every such call finishes in a bounded number of steps: '
  'there is no deadlock or endless retry, also when other callers fail or are interrupted, or when template code itself loads templates.',
  ['schedules', 'fault_sequences', 'configurations'],
  'every interleaving of importing and rendering threads with atomic file replacement, failing and interrupted neighbours, and re-entrant loads from template code',
  'The test-suite is single threaded and never reloads.',
  [LDR, TPL],
  [('lock of the loader', 'held while a template is looked up or compiled', 'kajiki/loader.py')],
  [('re-entrant lock released on every path', 'kajiki/loader.py Loader.import_, FileLoader.import_')],
  ['exceptions and completion of import_ and render calls'])

p('C09', 'Loading a template never leaks a file handle',
  'By the time an import or a compilation from a file returns or raises, every file it opened is closed, whichever '
  'system call fails, whether bytes cannot be decoded, the template is malformed, or an interrupt arrives while the file is being read.',
  ['fault_sequences', 'crash_points'],
  'every failure kind at every call made on the file and every interrupt point after the file was opened',
  'No test observes handles or fails a read; on CPython the garbage collector would hide a leak, on PyPy it stays open.',
  [XML, TXT, LDR],
  [('file object', 'opened for reading one template', 'kajiki/xml_template.py XMLTemplate, kajiki/text.py TextTemplate')],
  [('with statement around the read', 'kajiki/xml_template.py XMLTemplate, kajiki/text.py TextTemplate')],
  ['open file descriptors after each call'])

p('C10', 'The search path is honoured on every import while files come and go',
  'A file loader with several directories returns, on every import with reload on, the template in the first directory of its search path that holds a file of that name at that time. '
  'When a file appears in an earlier directory, or disappears from it, while the process runs, later imports follow, whichever modification times the files carry; a name that is in no directory is reported as IOError '
  'until it appears. A package loader likewise prefers xml, html, html5, txt in that order.',
  ['histories', 'schedules', 'configurations'],
  'every history of files appearing, disappearing and changing in the directories of the path, every order of modification times among them, concurrent imports',
  'Tests use one directory (and one package), with files that never change.',
  [LDR],
  [('search path', 'ordered list of directories', 'kajiki/loader.py FileLoader.path')],
  [('resolution on every import', 'kajiki/loader.py FileLoader._filename, PackageLoader._filename')],
  ['text rendered by the class returned from import_/load', 'exception of an import'])

p('C11', 'A render composed of several files uses whole, current versions of each',
  'When a template extends, includes or imports functions from other files and those files are replaced while it renders, the render completes and everything in its output that comes from one '
  'extended file, or from one inclusion or import of a file, comes from one single version of that file, one that was on disk at some moment of the render. Parts loaded later are never older versions than parts of the same file loaded earlier, and a render that starts '
  'after an edit of any of the files uses the edited file everywhere, in XML and in text templates.',
  ['schedules', 'histories', 'programs'],
  'every interleaving of a render with atomic replacements of the files it is composed of, by one or several threads sharing a loader; any inheritance depth and include pattern',
  'Composition is tested with in-memory templates that never change; text inclusion through a file loader is not tested at all.',
  [TPL, LDR, IR],
  [('parent instance and imported instances', 'bound during the render', 'kajiki/template.py _extend/_import')],
  [('names are resolved through the loader of the template at render time', 'kajiki/template.py _Template._extend/_import')],
  ['version markers in the rendered text'])

p('C12', 'Every render uses its own translator, whatever others use at the same time',
  'Translatable text of a render, including text of the templates it extends and includes, goes through the gettext function given in its context, or else the one given in the base globals, or else the process-wide default (kajiki.i18n.gettext): for the template itself the one installed when the render was created, for templates it loads while rendering one that was installed at some moment of the render. '
  'Renders in progress at the same time with different translators never see each other\'s, and replacing the default affects all renders created afterwards and no render that has its own translator.',
  ['schedules', 'histories', 'configurations'],
  'every interleaving of renders with different translators (context, base globals, default) and of replacements of the default between renders',
  'Four tests substitute a translator, each for a single render in a single thread.',
  [TPL, 'kajiki/i18n.py', IR],
  [('kajiki.i18n.gettext', 'process-wide default', 'kajiki/i18n.py'), ('gettext in the globals of an instance', 'translator of one render', 'kajiki/template.py _Template.__init__')],
  [('translator looked up in the globals of the instance', 'kajiki/template.py _Template._gettext')],
  ['rendered text', 'messages received by each translator'])

p('C13', 'A failure inside a template is reported with its template file and line',
  'When an expression in the text of a template raises at any point of a render, the traceback contains a frame that names the template file and the line of that '
  'expression in it, whether the expression stands in the body, in a function or in a block, in the template itself or in one it extends or includes, and however long the template is. '
  'For an expression in an attribute or directive the line named is the one on which its tag begins.',
  ['fault_sequences', 'programs'],
  'every expression of every template as the one that fails, on any visit',
  'Two tests check that some frame names the template file; none checks a line number.',
  [TPL, 'kajiki/lnotab.py', XML, TXT, IR],
  [('line table of the compiled functions', 'maps generated code to template lines', 'kajiki/template.py from_ir/annotate_lnotab')],
  [('line table rewriting', 'kajiki/template.py TplFunc.annotate_lnotab, kajiki/lnotab.py')],
  ['traceback of the exception'])

p('C14', 'Expressions are evaluated exactly once per visit and in document order',
  'Each expression, condition, iterable and switch subject of a template is evaluated exactly once each time rendering reaches it, and in document order (the attributes of one tag in alphabetical order), '
  'so that templates over stateful data sources (iterators, counters, live queries) show each datum exactly once. The output is the one determined by the values so obtained, also when the data source returns something different on every call.',
  ['histories', 'schedules', 'inputs'],
  'every template, every history of values returned by a stateful data source, also one that other threads change during the render',
  'Tests use constant data, so evaluating an expression twice or in another order goes unnoticed.',
  [XML, IR, TPL, TXT],
  [('generated code', 'order and number of evaluations', 'kajiki/ir.py')],
  [('one generated statement per construct', 'kajiki/ir.py node classes')],
  ['log of the calls the template makes into the data source, and the rendered text'])

p('C15', 'Markup output stays well-formed while the data changes under the render',
  'The complete output of an XML template is well-formed (every opened tag closed in order, every value escaped) for all data, also when conditions and values change '
  'during the render because other threads or callbacks modify them, as long as no value is explicitly marked as markup and no value contains characters that XML forbids (script and style elements, whose content is output as is, excepted). The values in the output, decoded by an XML parser, are exactly the values that were supplied, up to the white space normalisation of XML (in an attribute, what a template function outputs counts as text).',
  ['schedules', 'inputs', 'programs'],
  'every schedule of modifications of the data between any two evaluations, every string value of XML-legal characters, every template',
  'Tests use constant data and a handful of values; a condition whose value changes between the two ends of a tag is never tried.',
  [XML, IR, TPL],
  [('guards of start and end tag', 'must agree', 'kajiki/xml_template.py _compile_xml')],
  [('escaping of values and attributes', 'kajiki/template.py _escape/_render_attrs'), ('balanced tags by construction', 'kajiki/xml_template.py _compile_xml')],
  ['rendered text parsed by an independent XML parser'])

p('C16', 'How bytes are delivered while a template is read does not change the template',
  'The template compiled from a file or a source does not depend on how reading and parsing happen to be chunked: short reads, multi-byte characters split between reads, and '
  'parser buffer boundaries falling inside text, expressions, entities, CDATA sections or tags. It renders the same text and reports failing lines identically.',
  ['fault_sequences', 'inputs', 'programs'],
  'every sequence of read sizes and every placement of parser buffer boundaries, for every template of any size',
  'All templates in the tests are far smaller than one buffer and arrive in one piece.',
  [XML, TXT],
  [('text nodes of the parsed document', 'one per parser callback, merged later', 'kajiki/xml_template.py _Parser.characters')],
  [('merging of successive text nodes', 'kajiki/xml_template.py _DomTransformer._merge_text_nodes'), ('read to end of file', 'kajiki/xml_template.py XMLTemplate, kajiki/text.py TextTemplate')],
  ['text rendered by the compiled class'])

p('C17', 'A template delivers its text as a stream, as fast as it is asked for',
  'Iterating a template instance produces its text piece by piece, and evaluates it only as far as it is asked to. Creating an instance or an iterator evaluates nothing of the template; '
  'whenever an expression, condition or the next item of an iterable is evaluated, all of the text that precedes it in the output (for what stands in a tag: the text before that tag) has '
  'already been delivered, and the consumer is asking for more. When the consumer pauses, closes or drops the iterator, on whatever thread, or an expression fails, nothing further is evaluated; closing never '
  'fails; an iterator that ended stays ended. Every piece is text and the pieces together are the text of render().',
  ['schedules', 'histories', 'fault_sequences'],
  'every way of pulling any number of renders: pauses of any length at any piece, hand-over between threads, closing or dropping at any piece, failures at any evaluation; every template including functions, blocks, inheritance and inclusion',
  'Tests only call render(), which asks for everything at once.',
  [TPL, UTL, IR],
  [('suspended generators', 'the position of a render that is not asked for more', 'kajiki/util.py flattener.__iter__')],
  [('generators all the way down', 'kajiki/template.py _Template.__iter__, kajiki/util.py flattener')],
  ['pieces given by the iterator', 'log of user-code calls with the text delivered until then'])

p('C18', 'Nothing of a finished render and no replaced template is kept',
  'Once a render is over (completed, failed, interrupted, closed or dropped half way) and its caller has let go of the instance, kajiki keeps no reference to it: its context and the values, iterators and '
  'translator it was given can be reclaimed while the templates stay loaded. Likewise a template class that a reloading loader has replaced, that was compiled directly, or whose loader has been dropped can be reclaimed '
  'as soon as no render uses it. Memory does not grow with the number of renders and reloads.',
  ['histories', 'fault_sequences', 'schedules'],
  'every history of complete, failed, interrupted and abandoned renders, reloads, failed reloads and compilations, from any number of threads',
  'No test looks at what stays reachable; a leak shows only in a long-running process.',
  [TPL, LDR, UTL],
  [('per-instance globals', 'refer to the context and to themselves', 'kajiki/template.py _Template.__init__'), ('cache of template classes', 'one class per name', 'kajiki/loader.py Loader.modules')],
  [('the class does not refer to its instances', 'kajiki/template.py TplFunc.bind_instance'), ('a stale class is deleted from the cache', 'kajiki/loader.py FileLoader.import_')],
  ['weak references to context values, instances, loaders and classes'])

# --- pure functions of their input: listed for breadth, not decided by this technique
def na(id, title, statement, text, why, files, mech, observe):
    p(id, title, statement, ['inputs', 'programs'], text, why, files, [], mech, observe)

na('C30', 'Braced expressions end exactly where Python says they do',
   'In text, attributes and text templates, ${...} extends to the brace that closes the longest valid Python expression started there, also with nested braces, strings and newlines inside; an expression that is invalid or not closed is reported as a template error.',
   'every expression and every surrounding text', 'A dozen fixed expressions are tested.', [XML, TXT],
   [('end of expression found from the position of the syntax error', 'kajiki/xml_template.py _TextCompiler._get_braced_expr')], ['rendered text or error'])
na('C31', 'The output mode and document type follow the template or the mode argument',
   'The rendering mode is the one given by argument, else by the recognised document type, else XML; the document type of the template is reproduced once at the start of a page and never in a fragment or child template.',
   'every document type declaration and mode', 'About ten declarations are tested.', [XML, 'kajiki/doctype.py'],
   [('document type matching', 'kajiki/doctype.py')], ['rendered text'])
na('C32', 'Message extraction reports exactly the messages rendering translates',
   'For every XML template the set of messages reported by the Babel extractor equals the set of messages that rendering passes to the translator (with the same strip_text option), and never includes script or style content.',
   'every template', 'Two templates are tested.', ['kajiki/i18n.py', XML],
   [('both compile the same intermediate representation', 'kajiki/i18n.py extract')], ['extracted messages, messages translated'])
na('C33', 'Entities and CDATA in template text survive to the output',
   'Every HTML or XML entity in template text is output as the character it denotes, escaped where the output requires it, and CDATA sections are kept as written.',
   'every entity and every CDATA content', 'Three entities are tested.', [XML, 'kajiki/entities.py'],
   [('entity table', 'kajiki/entities.py')], ['rendered text'])
na('C34', 'Blocks and functions of a child template override those of its ancestors',
   'In an inheritance chain of any length each function and block resolves to the definition nearest to the child, parent_block and parent reach the next ancestor, and self, local and child denote the templates the documentation says.',
   'every inheritance chain', 'Chains of depth two and three are tested.', [TPL, IR],
   [('override tables built on extend', 'kajiki/template.py _extend')], ['rendered text'])
na('C35', 'Whitespace control in text templates is exact',
   'Line directives leave no whitespace, {%- removes the whitespace before it, -%} the blanks after it, a trailing backslash joins lines and a backslash before any other character stands for that character; all other text is copied unchanged.',
   'every text template', 'A few layouts are tested.', [TXT], [('scanner', 'kajiki/text.py _Scanner')], ['rendered text'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for r in P:
        f.write(json.dumps(r) + '\n')
