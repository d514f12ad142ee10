"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

T='aksharamukha/transliterate.py'; C='aksharamukha/Convert.py'; CF='aksharamukha/ConvertFix.py'; G='aksharamukha/GeneralMap.py'
PRE='aksharamukha/PreProcess.py'; POST='aksharamukha/PostProcess.py'; PO='aksharamukha/PostOptions.py'; GI='aksharamukha/gimeltra.py'; TF='aksharamukha/transliterate_file.py'
SM='aksharamukha/ScriptMap/'
TABLES=('script tables','lists of characters of one script, filled while the script module is first imported and shared by every later call', SM+'**, appended to by '+G+':add_additional_chars')
REG=('script registry cache','parsed YAML registries, one mutable dict handed to every caller', T+':_load_data (lru_cache)')

p('C01','Concurrent conversions do not affect each other',
 'When several threads of one process convert text at the same time, each call ends with exactly the result, error and warnings it would have had running alone, whatever the interleaving, including when the threads are the first to use a script. No interleaving blocks a call forever.',
 ['schedules','inputs'],
 'every interleaving of the library\'s steps in 2..4 threads x every mix of scripts, options, entry points and texts x cold or warm library',
 'The test suite is single-threaded within a process, so no interleaving at all is sampled; a race needs a switch inside a specific window of a specific function.',
 [T,C,CF,G,PRE,POST,PO,GI,SM], [('conversion keeps its whole state in locals and returns new strings',C+':convertScript'),('tables loaded lazily through the import system',G+':CrunchSymbols'),('registry cached once',T+':_load_data')],
 ['return value, exception and warnings of each call in each thread'], [TABLES,REG])

p('C02','A conversion depends only on its arguments, not on earlier calls',
 'The result, error and warnings of a call are the same in a freshly started process and after any sequence of earlier calls in the same process, in any order and number, whatever scripts, options, entry points and texts they used and whether they succeeded or raised.',
 ['histories','inputs'],
 'every finite history of calls (successful or failing) before the call in question x every call',
 'Tests check single calls, in one fixed order per worker; they cannot quantify over histories, and leftovers only show for particular pairs of calls.',
 [T,C,CF,G,PRE,POST,PO,GI,SM], [('no module state written by a conversion',C+':convertScript'),('fresh Transliterator per Semitic conversion',GI+':Transliterator'),('immutable use of cached registry',T+':process_script_tag')],
 ['return value, exception and warnings of each call of a history'], [TABLES,REG])

p('C03','A call cut short at any point leaves nothing behind',
 'If a call is interrupted at an arbitrary point (keyboard interrupt, timeout exception, out-of-memory error), then it either reports the interruption or returns its correct result, never a different one; and every later call in that process behaves as in a freshly started process.',
 ['crash_points','histories'],
 'every instruction of a call as the point of interruption x kind of interruption x first or later use of the scripts x every later call',
 'No test interrupts a call; the number of interruption points is unbounded and the damage shows only in a later, different call.',
 [T,C,G,GI,PRE,POST,SM], [('lazy table import is retried by the import system after a failed import',G+':CrunchSymbols, CrunchList'),('failed loads are not cached',T+':_load_data')],
 ['outcome of the interrupted call','outcomes of later calls in the same process'], [TABLES,REG])

p('C04','A failed read of the library\'s own data never yields wrong text',
 'If reading the library\'s bundled data or modules fails or is cut into short or interrupted reads while a call is running, the call either raises or returns its correct result, never a different text. Once the failure has passed, every call works again without restarting the process.',
 ['fault_sequences','histories'],
 'every position of a read failure (I/O error, too many open files, out of memory, permission) or short/interrupted read among the file operations of a call x every call x every later call',
 'The tests run on a healthy disk; a failure at the n-th read of a lazily loaded table is never produced.',
 [G,T,GI,SM,'aksharamukha/yaml','aksharamukha/json'], [('errors from loading propagate',G+':CrunchSymbols, CrunchList'),('registry loader',T+':_load_data'),('Semitic tables read on each construction',GI+':Transliterator.__init__')],
 ['outcome of the call that met the fault','outcomes of later calls'], [TABLES,REG])

p('C05','Tamil-to-IPA uses the remote service faithfully and fails openly',
 'Converting Tamil to IPA sends the complete text (in the library\'s normal spelling), whatever characters it contains, to the remote service, and returns the answer to that very request when the service answers successfully. If the service cannot be reached, breaks off, answers with an error status or falls silent, the call ends with an error in bounded time and never returns anything else as the conversion. No other conversion uses the network.',
 ['fault_sequences','schedules','inputs'],
 'every text x every behaviour of resolver, connection and service (refusal, reset, truncation, delay, silence, error status, split delivery) x concurrent requests x later calls',
 'The one network call is untested (the test sandbox is offline); each failure mode is an event outside the process.',
 [T], [('HTTP request to the transcription service',T+':convert (src Tamil, tgt IPA)')],
 ['bytes sent to the simulated service','outcome and simulated duration of the call','connections opened by other conversions'])

p('C06','The caller\'s option lists and the defaults are never altered',
 'Option lists (and other arguments) passed by the caller hold exactly the same items after a call as before it, whether the call succeeds, fails or is interrupted, and also when several calls or threads share one list. A call without options always means no options, whatever was passed before.',
 ['histories','schedules','crash_points'],
 'every call with options x every history and interleaving of calls sharing the same list objects x every point of interruption',
 'Tests pass literal lists and never look at them again; the default arguments are mutable lists shared by all calls in the process.',
 [T,TF,PO,PRE,POST], [('options are extended by building new lists, not in place',T+':convert'),('options are filtered into new lists',T+':convert_default')],
 ['argument objects after the call','result of calls that omit the options'], [('default option lists','mutable default arguments post_options=[], pre_options=[]',T+':process, convert_default; '+TF+':process')])

p('C07','A call leaves the host process as it found it',
 'Apart from importing modules and filling caches, no call changes process-wide state of the host program: working directory, environment, locale, logging configuration, warning filters, random generator state, standard streams, signal handlers, socket defaults, recursion limit, import path, open files, threads, temporary files; text conversion writes nothing to standard output (a file conversion may announce its output there). This holds under every interleaving of calls in several threads and wherever a call fails or is interrupted.',
 ['schedules','crash_points','histories','fault_sequences'],
 'every call x every interleaving with other calls x every point of failure or interruption',
 'Tests look only at return values, and a temporary change that is undone on the normal path is invisible to them.',
 [T,TF,G,GI,PRE,POST], [('library code takes and returns strings and touches no process-wide settings',C),('logging through the logging module',GI+':Transliterator; '+G+':CrunchList')],
 ['process-wide state before and after each call'])

p('C08','The same call gives the same outcome in every process',
 'The result, error and warnings of a call do not vary with the process it runs in: string-hash seed, locale and default text encoding, working directory and files lying there, environment variables, clock and time zone, random seed, optimisation flag, or the order in which the library\'s modules were first imported.',
 ['configurations','schedules','inputs'],
 'every environment of the listed kinds x every order of first import x every call',
 'The test run fixes one environment (UTF-8 locale, PYTHONHASHSEED=0, one directory, one import order).',
 [T,C,CF,G,PRE,POST,GI,SM], [('data files opened with an explicit encoding relative to the module',T+':_load_data; '+GI),('lists, not sets, are iterated for replacement order',GI+':_from_latin; '+C)],
 ['outcomes of one battery of calls in differently configured processes'])

p('C09','File conversion never touches anything but its own output',
 'Converting a .txt, .html or .docx file, in any environment of failing disk operations, crashes of the process or concurrent conversions, leaves the source file byte for byte as it was and creates, changes or removes no file other than the one output file belonging to that call.',
 ['fault_sequences','crash_points','schedules','inputs'],
 'every sequence of disk faults and crash points x document kind, size, name and location x existing outputs x concurrent conversions',
 'transliterate_file has no tests at all, and faults and crashes are never produced.',
 [TF], [('source opened read-only, output name derived from source name and scripts',TF+':convert_txt, convert_html, convert_docx, flush_zip_to_file')],
 ['directory tree before and after each run'])

p('C10','File conversion reports success only for a complete, faithful output',
 'When a file conversion returns normally, its output file holds the whole document: each text portion equals the direct conversion of that portion with the same scripts and options, and everything else (markup, attributes, comments, scripts, styles, other archive members and their order) is preserved. If a disk operation failed so that this is not so, the call raises and announces no success; a document all of whose portions convert is converted, and short or interrupted reads and writes make no difference.',
 ['fault_sequences','inputs','configurations'],
 'every sequence of disk faults, short and interrupted transfers x document kind, content, size and options; in-memory mode included',
 'transliterate_file has no tests; silent truncation needs a fault at a particular read, write or close.',
 [TF,T], [('text nodes converted one by one',TF+':convert_html, xml_file_to_convert'),('archive copied member by member',TF+':parse_content'),('output written and closed before success is announced',TF+':convert_txt, flush_zip_to_file')],
 ['output file after the call','exception or normal return','announcement on standard output'])

p('C11','A failed file conversion does no damage and can be repeated',
 'If a conversion fails before its output is ready (unreadable or malformed source, failing conversion, interruption, crash), an output left by an earlier run keeps its content and no new output appears. Repeating the conversion after any failure or crash, once the fault is gone, produces the same complete output as if nothing had happened, in the same process as well as in a new one.',
 ['crash_points','fault_sequences','histories'],
 'every point of failure, interruption or crash before the output is written, and every point at all for the repetition x document kinds',
 'transliterate_file has no tests; failure points are never produced.',
 [TF], [('whole conversion is done in memory before the output is opened',TF+':convert_txt, convert_html, convert_docx')],
 ['output path after a failed attempt','output after the repeated attempt'])

p('C12','Documents converted at the same time do not mix',
 'When several threads of one process convert different documents, or one document into different scripts, at the same time, each output file and each in-memory result is exactly what that conversion produces alone, under every interleaving.',
 ['schedules','inputs'],
 'every interleaving of 2..3 threads converting documents x document kinds x shared or distinct sources',
 'No test converts files, and none uses threads.',
 [TF,T,C], [('all conversion state in locals and parameters',TF+':convert_docx (conversion_data), parse_content')],
 ['output files and returned objects of all threads'])

# pure functions of the input: listed, not claimed
def pure(id,title,statement,text,why,files,mech,obs):
    p(id,title,statement,['inputs'],text,why,files,mech,obs)
pure('C13','Transliteration between the main Indian scripts is lossless',
 'Converting text from one main Indian script to another without nativization and back yields the original text.',
 'every text over the source script\'s repertoire x every ordered pair of reversible scripts','Two sample texts are tested; the guarantee is over all texts.',[C,CF,'aksharamukha/FallBack.py',SM],[('aligned symbol tables and fallback code points',G+':add_additional_chars')],['round-trip result'])
pure('C14','Romanization without nativization is reversible',
 'Indic text romanized into a reversible scheme and converted back yields the original text.',
 'every text x every reversible romanization','Two sample texts are tested.',[C,CF,SM],[('scheme tables and escape rules',C+':convertScript')],['round-trip result'])
pure('C15','Names, codes and languages resolve to the same script consistently',
 'Script names are accepted in any letter case, and addressing a script by ISO code, language code or language name gives the same conversion as addressing it by the name it resolves to.',
 'every registered script, code, language and spelling','Only default names are tested.',[T,'aksharamukha/yaml'],[('name resolution',T+':process_default, process_script_tag, process_lang_tag, process_lang_name')],['results by different addressing'])
pure('C16','Script detection recognises text of any supported script',
 'Text written in one supported script is detected as that script, or as the variety its characteristic letters indicate, regardless of punctuation and digits around it.',
 'every text of every supported script','No test calls detection.',[T,GI],[('majority of Unicode names plus characteristic letters',T+':auto_detect')],['detected name'])
pure('C17','Text foreign to the source script passes through unchanged',
 'Characters that do not belong to the source script (other scripts, Latin words in Semitic conversion, ITRANS ## escapes, emoji) appear unchanged and in order in the result.',
 'every mixed text','A handful of fixed texts are tested.',[C,PRE,T],[('private-use shielding of Latin letters',PRE+':retainLatin'),('## escapes',T+':convert')],['result text'])
pure('C18','Conversion is total',
 'For every pair of supported scripts and every text, conversion returns text and does not raise.',
 'every pair x every Unicode text','Samples of target scripts from two sources only.',[T,C],[('table driven replacement',C+':convertScript')],['return or exception'])
pure('C19','Unknown scripts and options are tolerated as documented',
 'An unknown script yields a warning and untouched text, and an unknown option name is ignored.',
 'every string as script or option name','Not tested.',[T],[('filtering and warnings',T+':convert_default')],['warnings and result'])
p('C20','The library can be imported under any circumstances',
 'Importing the library succeeds whichever of its modules is imported first (the tables GreekModern and SyriacMalayalam, which belong to no supported script, and the script demo.py apart) and however many threads import it at the same time, and leaves process-wide state of the host program as it was. An import that meets an interruption or failing, interrupted or short reads either succeeds completely or raises; importing again then succeeds in the same process, and every later call behaves as in a process whose first import was undisturbed.',
 ['schedules','fault_sequences','histories'],
 'every point of interruption and every file operation of the first import x kinds of faults x interleavings of importing threads x order of modules',
 'Tests import the library once, undisturbed, before anything else.',
 [T,C,CF,'aksharamukha/PostProcess.py',G,SM], [('module bodies that only define and can be run again','all modules'),('mutual imports resolved when functions run','aksharamukha/PostProcess.py, '+CF)],
 ['exceptions of imports','process-wide state before and after imports','outcomes of later calls'])
p('C21','A long-lived process does not wear out',
 'However many calls a process has made - with ever different texts, calls that fail or are interrupted, documents, requests to the remote service with outages, threads that come and go - the memory, open files, threads, connections and temporary files it holds on behalf of the library stay bounded, and the same call takes no more steps than it took at first.',
 ['histories','fault_sequences'],
 'every unbounded history of calls over finitely many scripts and options and unboundedly many texts x failures, interruptions and faults in them (a cache that is full after at most 16000 different texts counts as bounded)',
 'Tests make each call once; growth by one entry per call shows in no result and needs thousands of calls, and the leaks that matter sit on failure paths.',
 [T,C,CF,G,PRE,POST,PO,GI,TF], [('caches are keyed by finitely many things (registry files, scripts)',T+':_load_data'),('a fresh Transliterator per conversion',GI+':Transliterator'),('archives, files and temporary trees closed and removed on every path',TF),('one connection per request, closed',T+':convert (src Tamil, tgt IPA)')],
 ['memory blocks and bytes after garbage collection, descriptors, threads, connections, temporary files, executed lines of one repeated call'], [TABLES,REG])
p('C22','Conversions may be begun in the middle of one another',
 'When a conversion (or any other call of the library) is begun in the middle of another one in the same thread, as signal handlers, finalizers, hooks and greenlets of a host program do, while no module is being imported, then both end with exactly the result, exception and warnings each has alone, neither waits for the other for ever, and later calls are not affected.',
 ['schedules','histories'],
 'every instruction of every call x every other call begun there x what was called before',
 'No test makes a call while another is unfinished; a lock that is not re-entrant, a scratch buffer per thread or a "current" object shows only when calls of one thread overlap, which no number of threads brings about.',
 [T,C,CF,G,GI,TF,PO], [('working state in locals',C+':convertScript'),('no locks, no per-thread state',T+':convert'),('a fresh Transliterator per conversion',GI+':Transliterator')],
 ['outcomes of outer, nested and later calls','calls that never finish'], [TABLES,REG])
p('C23','A forked process converts like a fresh one',
 'A process forked at any moment at which no module is being imported, whatever calls it has made and whatever other threads of it are in the middle of, converts - in the parent and in every child, also at the same time - exactly as a fresh process does (texts, documents, requests to the remote service), and no call waits for ever.',
 ['schedules','histories'],
 'every history of calls x every moment of a fork relative to calls in other threads x interleavings of parent and child x documents and the remote service',
 'No test forks. Worker processes made by fork are how servers deploy such a library; locks held by other threads, threads that exist in the parent only, shared connections and buffers flushed twice break only there.',
 [T,C,TF], [('no locks or threads of its own',T+':convert'),('one connection per request, closed',T+':convert (src Tamil, tgt IPA)'),('files of a conversion opened, written and closed by one call',TF)],
 ['outcomes of parent and children','output files','calls that never finish'], [TABLES,REG])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w',encoding='utf8') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
