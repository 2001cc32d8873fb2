import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe,'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','A page that cannot be converted affects only itself',
 'Whatever error occurs while one page is parsed or written, the conversion goes on: every other selected page appears in the docx, complete, in document order and exactly as if the failing page did not exist, and no part of the failing page or its settings leaks into a neighbouring page. Conversion raises only when no selected page at all could be parsed.',
 ['inputs','fault_sequences'],
 'for every document, every selection and every set of pages failing at every possible point (any library or internal call made while parsing or writing that page, any damaged page content), each with any exception type derived from Exception',
 'Tests convert a handful of intact files; no test makes any page fail at any point, and the points where it can fail (thousands of calls per page) times the neighbours that could be affected cannot be sampled by hand.',
 ['pdf2docx/converter.py','pdf2docx/page/Page.py','pdf2docx/page/RawPage.py','pdf2docx/image/ImagesExtractor.py'],
 [('try/except per page in parse() and make_docx()','pdf2docx/converter.py'),('finalized flag set only after all parsing steps','pdf2docx/page/Page.py'),('process-wide rotation matrix is reset when a page is left','pdf2docx/common/Element.py'),('first section is reused only while the document body is empty','pdf2docx/page/Page.py')],
 ['docx body, sections, tables returned, exception raised'])
p('C02','Results do not depend on the calls made before',
 'Every convert, table extraction and debug call on a Converter gives exactly what a new Converter gives for the same pages and settings, and parse followed by make_docx gives exactly the pages parsed last with the settings given last, whatever was called before on this or another object: conversions, extractions, parsing with other settings, failed, partial or interrupted calls, restored layouts. Dictionaries and lists passed by the caller are not changed in a way that alters later calls using them.',
 ['histories','programs','fault_sequences'],
 'for every sequence of public operations (open, parse, convert, extract_tables, make_docx, store/restore, serialize/deserialize, debug_page, close) with any selections and settings, over any documents (pages sharing images and fonts included), with calls in between failing or being interrupted at any point',
 'Tests call one operation on a new object; the state left behind (finalized pages, cached shape groups, source page contents modified while clipping images, process-wide rotation matrix, option dictionaries) is only visible in longer histories.',
 ['pdf2docx/converter.py','pdf2docx/page/Page.py','pdf2docx/image/ImagesExtractor.py','pdf2docx/shape/Shapes.py','pdf2docx/common/Element.py'],
 [('pages are initialised anew for each conversion','pdf2docx/converter.py'),('source page contents set back after text was hidden','pdf2docx/image/ImagesExtractor.py'),('lazy shape groups are dropped on restore','pdf2docx/shape/Shapes.py')],
 ['docx content, extracted tables'],
 [('Page._finalized','page takes part in make_docx','pdf2docx/page/Page.py')])
p('C03','Multi-processing gives the same document as a single process',
 'Converting with several processes gives the same docx content, with the same pages in the same order, as converting the same selection with the same settings in one process. This holds for every number of processes and CPUs, including more processes than pages, for every page range or page list, for every order in which the processes run and finish, and whichever way the system starts them (fork or spawn).',
 ['schedules','inputs','configurations'],
 'for every document, start/end/page list (duplicates, unordered, out of range), settings, requested and available CPU count, and every interleaving and delay of the processes',
 'One test converts one file with multi-processing with the schedule the operating system happens to choose and looks at no content.',
 ['pdf2docx/converter.py'],
 [('selection divided into one segment per process','pdf2docx/converter.py'),('each process writes its own layout file, the parent restores all of them','pdf2docx/converter.py'),('store()/restore() of a page','pdf2docx/page/Page.py')],
 ['docx content of both modes'])
p('C04','Conversions running at the same time do not interfere',
 'Any number of processes converting in the same directory at the same time, with or without multi-processing and even of the same PDF file, each obtain the result they would obtain alone; two of them writing the same output leave one complete result. Files left behind by earlier, killed or still running conversions never get into another result, nor are they needed by it.',
 ['schedules','histories','crash_points'],
 'for every interleaving of at least two conversions at the level of file system operations, with neighbours killed at any point and arbitrary files left by earlier runs (same names included)',
 'Tests run one conversion at a time in a clean directory.',
 ['pdf2docx/converter.py','pdf2docx/common/share.py'],
 [('private temporary directory for intermediate layouts','pdf2docx/converter.py'),('private temporary name for the file being written','pdf2docx/common/share.py')],
 ['docx content per conversion, files in the directory'])
p('C05','Independent Converters in one process do not interfere',
 'Converters working on different documents in one process, their operations interleaved in any order or running in different threads that are preempted at any point, each give what they give alone.',
 ['schedules','histories','programs'],
 'for every interleaving of operations on two or more objects, and every preemption of threads between any two lines of pdf2docx, including documents with rotated pages, different settings, and objects in the middle of a page',
 'Tests use one object and one thread. Interference needs process-wide or class-level state written by one page and read by another between two given lines.',
 ['pdf2docx/common/Element.py','pdf2docx/page/Page.py','pdf2docx/common/Collection.py','pdf2docx/text/TextSpan.py'],
 [('thread-local rotation matrix','pdf2docx/common/Element.py'),('no class-level or default-argument state of pages','pdf2docx/page/Page.py')],
 ['docx content and tables per object'],
 [('Element.ROTATION_MATRIX','rotation of the page being read','pdf2docx/common/Element.py')])
p('C06','A docx file is complete or not there at all',
 'At every point of a conversion, and after any crash, error or interruption, the output path holds either what was there before (the earlier document, or nothing) or the complete new document; never an empty, truncated or mixed file. A disk that is full or fails on any operation leaves the earlier document intact and makes the conversion raise.',
 ['crash_points','fault_sequences','histories'],
 'for every conversion (single or multi-processing, API or command line, debug mode), every crash of the process between or within any two file operations, every failing, short or torn write, full disk and KeyboardInterrupt, with and without an earlier file; process crash, not power loss',
 'Tests never fail a file operation and never look at the output of an aborted conversion.',
 ['pdf2docx/converter.py','pdf2docx/common/share.py'],
 [('write to a temporary name in the same directory, then rename','pdf2docx/common/share.py')],
 ['bytes at the output path after the fault'])
p('C07','Source PDFs and unrelated files are never changed or deleted',
 'No operation, whether it succeeds, fails or is killed, changes, truncates, renames or deletes the source PDF, whatever its name, extension, directory or encryption, nor any file it was not asked to write, whether beside the input, the output or in the working directory. Output files are written only at the paths given or documented as default, through links, which stay links.',
 ['inputs','histories','fault_sequences','crash_points'],
 'for every file name (any extension except .docx, dots, spaces, non-ASCII, links), default and explicit output names, every operation including debug plotting, encrypted sources, multi-processing, and any fault or crash at any file operation',
 'Tests use names ending in .pdf in a directory of their own and do not compare any file with its earlier content.',
 ['pdf2docx/converter.py','pdf2docx/main.py','pdf2docx/image/ImagesExtractor.py'],
 [('default docx name from the PDF name','pdf2docx/converter.py'),('page contents changed in memory only; document never saved','pdf2docx/image/ImagesExtractor.py'),('only own temporary files are removed','pdf2docx/converter.py')],
 ['hash of every file before and after'])
p('C08','A stored layout, restored anywhere, makes the same document',
 'A layout stored from parsed pages (as dictionary or as JSON file) and restored, any number of times, in any process, by a Converter with any history, makes the same docx content and gives the same tables as the pages it was stored from. Storing does not change the pages stored, and storing a restored layout again gives the same layout (apart from boundary boxes of text blocks, which follow from their lines).',
 ['inputs','histories','programs'],
 'for every document and settings, every kind of content (text styles, links, lists, images, floating images, nested/merged tables, stream tables, highlights, vertical text, columns, rotation), every history of the restoring object, any chain of store/restore/serialize/deserialize; extraction options of restored pages are those of the restoring object',
 'The only test of it looks at one converted file; whether every attribute of every kind of element survives, also into objects that hold an earlier layout, is a matter of all contents and all histories.',
 ['pdf2docx/converter.py','pdf2docx/page/Page.py','pdf2docx/page/Layout.py','pdf2docx/page/Blocks.py','pdf2docx/text','pdf2docx/table','pdf2docx/shape','pdf2docx/image'],
 [('store()/restore() of every element','pdf2docx/common/Element.py'),('block types recorded in the layout','pdf2docx/page/Blocks.py')],
 ['docx content and tables made from the restored layout'])
p('C09','A layout file is saved completely or not at all, torn ones are rejected',
 'Saving a layout leaves at its path either the earlier content or the complete new layout, after any crash, error, full disk or interruption. Loading a file that is not complete raises an error and leaves the pages of the loading Converter, and what it makes of them, unchanged.',
 ['crash_points','fault_sequences'],
 'for every crash, failing or short write and full disk at any file operation of serialize() and debug_page(), and every truncation of a layout file',
 'Tests neither fail a write nor load a damaged layout.',
 ['pdf2docx/converter.py','pdf2docx/common/share.py'],
 [('write to a temporary name, then rename','pdf2docx/common/share.py'),('parse the whole JSON before touching any page','pdf2docx/converter.py')],
 ['bytes at the layout path, docx made after loading'])
p('C10','A failing worker process fails the conversion, it never hangs or drops pages',
 'If a worker process of a multi-processing conversion is killed, cannot start, or fails at any point, the conversion ends within a bounded number of steps, either with the complete document or with an error and the earlier output untouched. It never waits forever and never reports success for a document lacking pages because of it; the next conversion, with the same object or another, works normally.',
 ['fault_sequences','schedules','crash_points'],
 'for every worker, every operation at which it is killed, fails with an I/O or memory error or stalls, every number of such workers, every schedule',
 'No test kills or fails a worker process.',
 ['pdf2docx/converter.py'],
 [('process pool that reports abruptly terminated workers','pdf2docx/converter.py'),('every worker result is awaited before layouts are read','pdf2docx/converter.py')],
 ['outcome and number of steps, docx content, next conversion'])
p('C11','The output is a function of the PDF and the settings only',
 'Converting the same PDF with the same settings gives the same docx content and the same tables every time, on every run of the interpreter. It does not depend on hash randomisation, object addresses, garbage collection, the clock, random number generators or the order in which the system lists files.',
 ['configurations','inputs','schedules'],
 'for every document and settings, every hash seed, allocation order and address re-use, garbage collection schedule, clock value and random state',
 'Tests convert each file once per run under one hash seed and compare nothing between runs.',
 ['pdf2docx/shape/Shapes.py','pdf2docx/common/Collection.py','pdf2docx/common/Collection.py','pdf2docx/table','pdf2docx/image','pdf2docx/page/Blocks.py'],
 [('grouping of connected elements in document order','pdf2docx/common/Collection.py'),('collections keep document order','pdf2docx/common/Collection.py')],
 ['all parts of the docx, byte for byte'])
p('C12','Nothing is left behind by a conversion that has ended',
 'When a conversion, extraction or debug call has returned or raised, for whatever reason including I/O errors and KeyboardInterrupt, no temporary or intermediate file, no worker process and, for the one-call API and command line, no open handle of the PDF remains. Memory and handles held do not grow with the number of calls.',
 ['fault_sequences','schedules','histories'],
 'for every operation, single and multi-processing, every fault or interrupt at every operation of parent or worker (SIGKILL of the parent itself excepted)',
 'Tests look neither at the directory, nor at processes, nor at handles after a failed call.',
 ['pdf2docx/converter.py','pdf2docx/main.py','pdf2docx/common/share.py'],
 [('TemporaryDirectory and executor as context managers','pdf2docx/converter.py'),('try/finally close in the command line functions and workers','pdf2docx/main.py')],
 ['directory listings, live child processes, open PDF handles after each call'])
p('C13','Success is reported only for a result that is completely there',
 'An operation that returns normally, or a command that exits with success, has produced its complete result: the docx or layout is at its path and contains every selected page that was not reported as ignored. Missing, empty, damaged beyond recognition, or password protected input, unwritable output and selections without any page raise an error.',
 ['fault_sequences','inputs','configurations'],
 'for every operation and every I/O error, short write, full disk or failing call at any point, every kind of unusable input or output path, through the API and the command line',
 'Tests check that some file exists after successful conversions only.',
 ['pdf2docx/converter.py','pdf2docx/main.py','pdf2docx/common/share.py'],
 [('errors of opening, saving and of workers are not swallowed','pdf2docx/converter.py')],
 ['return or raise of the call, content of the file'])
p('C14','Diagnostics never change the result',
 'Progress and error messages, and the debug mode that plots every step, have no influence on the result: the docx, layout and tables are the same whatever the encoding of console and locale, with the console missing, closed or failing when written to, with failure messages containing any characters, and with debug plotting on or off. A page is never lost, and a conversion never fails, because of a message or a plot.',
 ['configurations','inputs','fault_sequences'],
 'for every console and locale encoding (ASCII, legacy code pages, none at all), file name, document text, failure message and debug option',
 'Tests run with a UTF-8 console, plain names, without failing pages and without debug plots.',
 ['pdf2docx/converter.py','pdf2docx/common/share.py','pdf2docx/page/Page.py','pdf2docx/page/Blocks.py'],
 [('messages are ASCII','pdf2docx/converter.py'),('debug_plot only draws','pdf2docx/common/share.py'),('layout JSON independent of the locale encoding','pdf2docx/converter.py')],
 ['docx content under different encodings and debug options'])
NA={}
def na(id,title,statement,over,text,why,files,mech,obs,reason):
    p(id,title,statement,over,text,why,files,mech,obs); NA[id]=reason
pure='A pure function of one PDF page and the settings: it has no schedule, clock, I/O, randomness or fault to simulate; deciding it needs generated inputs against an independent fidelity oracle (property-based testing), which is another family. '
na('C15','All text of a page appears in the docx, once, in reading order',
 'Every visible character of a converted page appears in the docx exactly once, in reading order within its paragraph, column and cell; nothing is invented.',
 ['inputs'],'for every page content, layout and rotation','Tests compare text of a few sample files only.',
 ['pdf2docx/text','pdf2docx/page/Layout.py','pdf2docx/page/RawPage.py'],[('span/line/block grouping','pdf2docx/text/TextBlock.py')],['docx text'],pure+'Only its dependence on histories, schedules and environments is decided (C02, C03, C05, C11).')
na('C16','Tables keep their grid, merged cells and cell content',
 'A lattice table in the PDF becomes a docx table with the same rows, columns, merged cells, borders and shading, each cell with its own content, and extraction returns the same grid.',
 ['inputs'],'for every table geometry','A few sample tables are compared.',
 ['pdf2docx/table'],[('border and cell construction','pdf2docx/table/TableStructure.py')],['docx tables'],pure)
na('C17','Images appear once, at their place and size',
 'Every visible image of a page appears in the docx, inline or floating, with the bounding box and content it has in the PDF.',
 ['inputs'],'for every image kind, mask, rotation and transparency','Sample files only.',
 ['pdf2docx/image'],[('image extraction','pdf2docx/image/ImagesExtractor.py')],['docx images'],pure)
na('C18','Text styles and links are preserved',
 'Font name, size, colour, bold, italic, underline, strike, highlight and hyperlink of every span are those seen in the PDF.',
 ['inputs'],'for every combination of styles and shapes over text','Sample files only.',
 ['pdf2docx/text','pdf2docx/shape'],[('shape semantics','pdf2docx/shape/Shape.py')],['docx runs'],pure)
na('C19','Page geometry is preserved',
 'Each section has the size of its page; margins, columns, spacing and indentation place every block where it was within tolerance, for rotated pages too.',
 ['inputs'],'for every page size, rotation and block arrangement','Sample files only.',
 ['pdf2docx/page','pdf2docx/page/Layout.py','pdf2docx/common/Element.py'],[('margin, spacing and section parsing','pdf2docx/page/Page.py')],['docx sections and paragraph formats'],pure)
na('C20','Page selection and one-based indexes mean what the documentation says',
 'start, end and pages select the documented pages; with one-based indexes the command line selects the same pages with all numbers one higher.',
 ['inputs','configurations'],'for all numbers of pages and arguments','One or two selections are tested.',
 ['pdf2docx/main.py','pdf2docx/converter.py'],[('_page_indexes','pdf2docx/converter.py')],['pages in the docx'],'Index arithmetic on the arguments: a pure function without any nondeterminism or fault; that every mode agrees on the selection is part of C02/C03.')
na('C21','Geometry primitives are exact',
 'Intersection, containment, projection and alignment tests of boxes and the grouping of overlapping boxes agree with their geometric definition for all coordinates within tolerance.',
 ['inputs'],'for all boxes','A few boxes are tested.',
 ['pdf2docx/common'],[('group_by_connectivity and box tests','pdf2docx/common/Collection.py')],['return values'],'Pure functions of their arguments; no environment to simulate.')
p('C22','An interrupt ends the call it hits',
 'A KeyboardInterrupt, SystemExit or cancellation arriving at any point of a call reaches the caller: it is never taken for a failing page, never swallowed, replaced by another error or turned into success. Nothing goes on after it: no further page is processed by the interrupted process and no output is put in place, and the call ends within a bounded number of steps, also with worker processes running or interrupted at the same time. Afterwards the next calls in that process give what they give without the interruption.',
 ['fault_sequences','crash_points','schedules'],
 'for every public operation (single and multi-processing, API and command line, debug, store and restore), and every function call, file operation, message and worker interaction at which an interrupt can arrive, alone or together with its worker processes',
 'No test interrupts anything; errors of a page are deliberately ignored by the conversion, so whether an interrupt is one depends on the very line it hits.',
 ['pdf2docx/converter.py','pdf2docx/common/share.py'],
 [('only Exception is ignored per page','pdf2docx/converter.py'),('temporary file removed and interrupt raised again','pdf2docx/common/share.py'),('pool and temporary directory left by context managers','pdf2docx/converter.py')],
 ['exception raised, pages processed and outputs written after it, results of the next calls'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
T='deterministic simulation with fault injection (seeded search over schedules and faults; reference model)'
notes={
'C01':'Seeded injection of exceptions into every library and internal call made for a page (and damaged page streams); every other page compared with its pristine single-page conversion. Sampled, not exhaustive.',
'C02':'Seeded random operation histories against a small executable model of a Converter, results compared with pristine conversions. Sampled histories of up to about ten operations.',
'C03':'Simulated process pool, scheduler decides every file-level interleaving; compared with single page references. Workers run as simulated processes (threads with private module state), not OS processes.',
'C04':'Two or three simulated processes in one directory, interleaved at every file operation, with kills and stale files. File system operations are real calls made one at a time under the scheduler.',
'C05':'Operations of several objects interleaved, and threads preempted at seeded line events inside pdf2docx. Sampled preemption points; C extensions are atomic.',
'C06':'Crash, error, short write, full disk or interrupt at seeded file operations (weighted to the output files); crash model is process crash with the page cache surviving.',
'C07':'Byte comparison of every file over runs with odd names, links, encryption, faults and crashes. Sampled names.',
'C08':'Store/restore chains across simulated processes and histories, compared with pristine conversions; generated corpus covers every content kind.',
'C09':'Crash/error/short write/full disk at seeded operations of saving, and seeded truncation of files. Process crash, not power loss.',
'C10':'Kills, errors and stalls at seeded operations of workers; bounded number of scheduler steps as liveness. The pool itself is a simulated stand-in with the semantics of multiprocessing.Pool and ProcessPoolExecutor.',
'C11':'Each conversion in several environments: own interpreter with another hash seed, simulated addresses with re-use, object hashes, GC schedules, clocks. Sampled environments.',
'C12':'Directory, simulated processes and PDF handles counted after every operation under faults and interrupts.',
'C13':'Every normal return checked for its complete result under seeded faults and unusable inputs/outputs.',
'C14':'Same conversion under different console/locale encodings, messages and debug plots, compared with the reference.',
'C22':'Interrupts at seeded function calls, file operations, messages and pool operations, alone or of the whole process group; sampled points.'}
M={'version':1,'setup_cmd':'./run setup','checks':[{'property':i,'quick_cmd':'./run check %s'%i,'thorough_cmd':'./run check %s --thorough'%i,'technique':T,'level':'exploration','level_note':n} for i,n in notes.items()],
'not_applicable':[{'property':k,'reason':v} for k,v in NA.items()],
'notes':'No hooks in /repo: every seam (file system, process pools, PDF open/close, console, locale, clock, randomness, addresses, hashes, garbage collection, line events, library calls) is put in place from outside by dst/sim.py and dst/world.py.'}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
