import json
P=[]
def prop(id,title,statement,over,text,why,files,mechanism,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=mechanism,where=', '.join(files[:4]))]))
    if state: d['anchors']['state']=[dict(name=x,meaning=x,where=', '.join(files[:3])) for x in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
B='pyfileconf/'
prop('C01','Scaffolded config files are faithful to the registered signature',
 "Loading a manager creates, for every registered function, class and specific class item and at its own section path, a config file that defines every parameter with its default value (None when there is no default, the item's name for a specific class's key attribute) and annotation, and a section.py for every section of the pipeline dict. Every scaffolded file executes on its own, so that running an unedited item passes it exactly the defaults of its signature.",
 ['programs','inputs'],'every set of modules, signatures (positional, keyword-only, annotated, required), default expressions and nesting of the pipeline and class dicts',
 'Tests scaffold a handful of fixed functions; the guarantee is over arbitrary signatures, default expressions, annotations and nestings, where the AST round trip can lose, reorder or mangle a value.',
 [B+'pipelines/models/collection.py',B+'data/models/collection.py',B+'io/func/load/args.py',B+'io/func/load/config.py',B+'io/func/load/extractimp.py',B+'assignments/logic/write.py',B+'io/file/write/base.py'],
 'Collections walk the nested dict, extract args and needed imports by AST and write them as assignments; configs are executed lazily',
 ['files under <folder>/defaults'],['PipelineManager.load','config files','recorded kwargs of the called item'])
prop('C02','Loading again preserves user edits, adds what is new, and is idempotent',
 "Loading a project whose config files were edited keeps, for every item, every name the user defined with the value it evaluates to (including user-added imports, helper assignments and annotations) and every comment, adds parameters that were newly added to the signature with their defaults, and never touches an existing section.py or a file which belongs to no registered item. From the second load on, loading again without changes leaves every file byte-identical.",
 ['histories','programs'],'every history of signature changes, user edits, item additions and removals and loads',
 'Tests check one edit of one file; rewriting merges two ASTs and the loss of an edit depends on the shape of the file and on which parameters changed.',
 [B+'basemodels/config.py',B+'basemodels/file.py',B+'config/logic/load.py',B+'io/file/write/base.py',B+'io/file/load/lazy/config.py',B+'imports/models/statements/container.py',B+'assignments/models/container.py'],
 'Existing file contents are parsed and merged into the scaffolded config before the file is rewritten in place',
 ['files under <folder>/defaults'],['config files after PipelineManager.load','evaluated config after load'])
prop('C03','Config inheritance: the innermost section override of a value wins',
 "The configuration with which an item runs is its own config file overridden by the section.py of the project and then of each enclosing section from outermost to innermost, so for each parameter the innermost section.py that defines it wins, and otherwise the item's own value. Section values for names that are not parameters of the item never reach it, and a section.py affects no item outside its section.",
 ['configurations'],'every nesting depth, every placement of overrides in section.py files and item files, every order of access',
 'The result depends on the combination of layers and on lazily cached state; tests check single-layer placements.',
 [B+'config/models/manager.py',B+'config/models/section.py',B+'pipelines/models/config.py',B+'runner/models/runner.py'],
 'ConfigManager.get starts from the item config and updates it with project and section configs along the path, the runner filters to function arguments',
 ['ConfigManager.section tree'],['recorded kwargs of the called item','pm.config.get'])
prop('C04','An update reaches exactly the targeted item, everywhere, and nothing else',
 "After pm.update with given keys (or setting the attribute through a Selector item), every way of using that item (run, get, attribute access, Selector item, config.get) sees exactly the new values for those parameters and its previous values for all others, whether or not the item was loaded before. No other item, manager, default in the source or file on disk changes, including items with the same function or a similar path, and the values are held for any type including arrays and data frames.",
 ['histories','inputs'],'every interleaving of updates, runs, gets and attribute sets over several items and managers',
 'State lives in lazily loaded configs, cached partials and cached objects; the views disagree only after particular orders of operations that tests do not enumerate.',
 [B+'config/models/manager.py',B+'basemodels/config.py',B+'runner/models/runner.py',B+'config/logic/apply.py',B+'selector/models/selector.py',B+'main.py'],
 'Runner.update updates the config and applies it to the cached object in place when one is loaded',
 ['ConfigManager.section tree','cached objects of the runner'],['recorded kwargs','pm.config.get','attributes of objects'])
prop('C05','refresh re-reads the file and keeps exactly the persistent updates',
 "pm.refresh makes an item's configuration the current contents of its config file overridden by the updates made with pyfileconf_persist=True (the default), in order, so that updates made with pyfileconf_persist=False and older file contents are gone. The item sees that configuration in place, and no other item's configuration changes.",
 ['histories'],'every history of persistent and temporary updates, file edits, refreshes, runs and gets',
 'The outcome depends on the history (which updates persisted, whether the object was loaded, whether the file changed in between), not on a single call.',
 [B+'basemodels/config.py',B+'config/models/manager.py',B+'runner/models/runner.py'],
 'ConfigBase tracks applied updates and replays them over a fresh load of the file',
 ['ConfigBase applied updates'],['recorded kwargs','pm.config.get'])
prop('C06','reset and reload return configuration to the files',
 "pm.reset of an item discards all updates to that item so it again has the values of its current config file, in place for an already loaded object, and leaves every other item as it was. pm.reload does that for every item, picks up file and dict changes made since, and later refreshes never bring discarded updates back.",
 ['histories'],'every history of updates, file edits, resets, reloads and refreshes over several items',
 'Discarded updates can resurface only after specific later operations (refresh, dependency propagation), which single-step tests never reach.',
 [B+'config/models/manager.py',B+'runner/models/runner.py',B+'main.py'],
 'ConfigManager.reset replaces the config by a fresh load; reload wipes imported modules, rebuilds registrars, config and runner',
 ['ConfigManager.section tree','cached objects of the runner','sys.modules'],['recorded kwargs','pm.config.get','config files'])
prop('C07','Items keep their identity and are updated in place',
 "Until the manager is loaded again, every access to one section path (get, attribute access, Selector item, items within a section's get) yields the same object, constructed at most once and only when first needed (a placeholder of each specific class item being made at load and configured in place), and distinct paths yield distinct objects. update, reset and refresh change that same object in place, through its _pyfileconf_update_ when it defines one and through __init__ otherwise, passing only parameters of its __init__.",
 ['histories'],'every order of accesses and changes over functions, classes and specific class items',
 'A duplicated or rebuilt object is only visible by comparing identities over a history of accesses through different doors.',
 [B+'runner/models/runner.py',B+'config/logic/apply.py',B+'selector/models/itemview.py',B+'main.py'],
 'Runner caches loaded objects per section path and apply_config mutates them',
 ['cached objects of the runner'],['identity of returned objects','recorded constructor and update calls'])
prop('C08','A change reaches every config which depends on it, transitively',
 "When config files refer to attributes of other items through the Selector, then after any update, reset or refresh of a loaded item, every loaded item that depends on it directly or through any chain of items, in the same or another manager, has the configuration its file evaluates to under the new state, with its own persistent updates still applied. Items which do not depend on it keep their configuration, and propagation terminates.",
 ['configurations','histories'],'every acyclic dependency graph over items of several managers and every history of updates, accesses, resets and refreshes',
 'Propagation depends on the shape of the graph (diamonds, chains, cross-manager) and on which items were loaded in which order.',
 [B+'config/models/manager.py',B+'pmcontext/main.py',B+'pmcontext/stack.py',B+'plugin/default_hooks.py',B+'selector/models/selector.py',B+'selector/models/itemview.py'],
 'Dependencies are recorded while files execute and items run; the post config changed hook refreshes dependents until a fixpoint',
 ['context.config_dependencies','context.force_update_dependencies'],['attributes of objects','recorded kwargs','hook calls'])
prop('C09','The execution stack is balanced and attributes accesses correctly',
 "While an item runs or a config file executes, the context's stack has exactly one frame per active run or file execution, innermost last, so the currently running section path is always that of the item whose code is executing; after any operation, successful or raising at any depth, the stack is back to what it was before. Items used inside a run, through the Selector or by running them, are recorded as dependencies of the innermost running item and of no other, never of the item itself.",
 ['histories','fault_sequences'],'every nesting of runs, gets and Selector calls inside running items, across managers, with exceptions at any depth',
 'Leaks show only after an exception at depth or a nested run, and then corrupt later unrelated operations.',
 [B+'pmcontext/tracing.py',B+'pmcontext/stack.py',B+'pmcontext/main.py',B+'runner/models/runner.py',B+'io/file/load/active/loader.py'],
 'StackTracker context manager pushes and pops frames around runs and file loads',
 ['context.stack','context.config_dependencies'],['context.stack read inside running items and after operations'])
prop('C10','run executes each requested item once, in order, and shapes results alike',
 "pm.run executes exactly the requested items, each once, in the order requested and, within a section, in definition order with nested lists mirroring the nesting of the section, and returns their results at the corresponding positions (a list for a list or section, a scalar for a single item). Paths returned by pre-run hooks are run after the requested ones and results returned by post-run hooks are appended after the results.",
 ['inputs','programs'],'every nested pipeline dict, every request (str, list, section, view) and every hook output',
 'Shape and order depend on the recursion over arbitrary nestings mixing functions, classes and sections, and on hook combinations.',
 [B+'runner/models/runner.py',B+'main.py',B+'logic/combine.py',B+'data/models/collection.py',B+'basemodels/collection.py'],
 'Runner recursion over the collection, with list extraction rules in PipelineManager.run',
 None,['recorded call sequence','returned results'])
prop('C11','Iterative runs cover the product, each case under exactly its own config',
 "run_product, run_product_gen and IterativeRunner run every combination of the updates grouped by section path exactly once, in product order, and report each result with its case; while a case runs, every item mentioned in the cases has its configuration from when the runner was created overridden by exactly that case's values, with nothing left over from other cases, failed cases or earlier runs of the runner.",
 ['inputs','histories','fault_sequences'],'every list of updates over several items and managers, repeated values, failing cases, generators abandoned midway and runners run again',
 'Leftover values from the previous case appear only for particular neighbouring cases (differing key sets, equal values, a failure in between).',
 [B+'iterate.py',B+'plugin/default_hooks.py',B+'batch.py',B+'main.py'],
 'Cases are filled with defaults and applied via BatchUpdater, skipping configs equal to those of the last case',
 ['IterativeRunner.last_case','IterativeRunner.defaults'],['recorded kwargs per case','returned (case, result) pairs'])
prop('C12','A batch update is equivalent to its updates applied one by one',
 "pm.update_batch and BatchUpdater.update leave every item of every manager in the same configuration as applying each update in order with pm.update on the manager its section path belongs to, including repeated targets and updates added by pre-batch hooks, and touch nothing else. BatchUpdater.reset is equivalent to resetting each path on its manager.",
 ['inputs','histories'],'every sequence of updates across managers given as strings, section paths and views',
 'Routing by section path across managers and the order of repeated updates need differential comparison over many sequences.',
 [B+'batch.py',B+'main.py',B+'sectionpath/sectionpath.py'],
 'BatchUpdater resolves each path to its manager and applies the update',
 None,['pm.config.get of all items of twin projects'])
prop('C13','A Selector item behaves as the item it stands for',
 "For any registered path, the Selector's item resolves without loading anything until used, and then its type, isinstance, attributes, calls, copies and deepcopies are those of the real item of that manager, two views are equal and hash alike exactly when their paths are the same, and it can be passed to run, get, reset and update values in place of the item. An attribute which does not exist raises AttributeError, and a failed look up never changes the result of any later look up.",
 ['inputs','histories'],'every registered path, attribute and sequence of look ups including failing ones',
 'The view is a proxy overriding __class__, __getattr__, __eq__ and __call__; leaks appear for particular kinds of items and after failed look ups.',
 [B+'selector/models/itemview.py',B+'selector/models/selector.py',B+'runner/models/runner.py',B+'main.py'],
 'ItemView looks up paths in the collections and delegates to the manager on attribute access or call',
 ['Selector structure','Runner attribute look up state'],['results of attribute access, calls and comparisons'])
prop('C14','create adds exactly one entry, usable now and after loading again',
 "pm.create makes the new item immediately usable with its defaults, writes its config file, and adds it to the pipeline or class dict file such that a fresh load of the project registers exactly the previous items plus the new one, all with their configuration. Existing items, their updates and their config files are unchanged by it, and a create that is refused leaves the project as it was.",
 ['histories'],'every sequence of creates over new and existing, nested sections, of functions, classes and specific class items, mixed with updates',
 'The dict file is rewritten from its AST; what else is lost depends on its prior contents and on the history of creates.',
 [B+'main.py',B+'dictfiles/modify.py',B+'basemodels/registrar.py',B+'config/models/manager.py',B+'pipelines/models/dictfile.py',B+'data/models/dictfile.py'],
 'create edits the dict file through AST and source formatting, then registers the object and config in memory',
 ['pipeline_dict.py','<name>_dict.py','config files'],['fresh manager over the same folder','files on disk'])
prop('C15','Hooks fire exactly when specified, with what actually happens',
 "pyfileconf_pre_config_changed fires once before each actual change of an item's configuration through update, reset or refresh, seeing the old configuration, and pyfileconf_post_config_changed once after each change of a loaded item, seeing the new one; neither fires for operations that change nothing. pyfileconf_pre_update and pyfileconf_post_update fire once around every update, and updates returned by pre_update hooks take effect.",
 ['histories'],'every history of effective and ineffective updates, resets and refreshes with any number of plugins',
 'Missing, doubled or misordered notifications are visible only in a recorded event log over a history.',
 [B+'main.py',B+'config/models/manager.py',B+'runner/models/runner.py',B+'plugin/hookspecs.py',B+'basemodels/config.py'],
 'ConfigManager determines whether a change would happen and calls the hooks around it',
 None,['log of hook calls recorded by plugins'])
prop('C16','Failure policies isolate failing items and lose no result',
 "With force_continue, pm.run runs every requested item even when some raise, returns the results of the successful ones in order and reports every failure; with auto_pdb the debug function is called exactly once per failing run, which returns None; otherwise the item's own exception propagates unchanged after running nothing further. After a failure in any mode the manager keeps working with its configuration unchanged.",
 ['fault_sequences'],'every placement of exceptions among the items of a run, in every mode',
 'Tests inject one failure in one place; the guarantee is over every failure pattern and what still works afterwards.',
 [B+'main.py',B+'debug.py',B+'runner/models/runner.py'],
 'Runs are wrapped per item in try/except helpers',
 None,['recorded call sequence','results','log records','debug function calls'])
prop('C17','Options and logging are scoped, and side effects on the process undone',
 "Options hold the value last set until reset, and leaving a with block on the options, normally or by an exception, restores the defaults; sys.stdout is always the original object after a run with log_stdout, in which everything printed is logged. At any time log records go to exactly the currently set log folder's file and nowhere else: there is one file handler when log_folder is set and none when it is not.",
 ['histories','fault_sequences'],'every sequence of setting, resetting and nesting of options and of succeeding and failing runs',
 'Leaked handlers and a replaced stdout appear only after sequences (changing the folder, raising runs, re-entering) that tests do not produce.',
 [B+'opts/__init__.py',B+'opts/filelog.py',B+'logger/logger.py',B+'logger/bind_stdout.py',B+'main.py'],
 'Option setters run callbacks that add or remove a handler; a context manager swaps sys.stdout',
 ['options','logger handlers','sys.stdout'],['contents of log files','sys.stdout identity','option values'])
prop('C18','Section paths form an algebra consistent with file paths',
 "Section paths convert to and from strings, lists of sections and file paths without loss, join is associative and concatenates sections, endswith is true exactly for suffixes of whole sections, and equality and hashing follow the path string. from_ambiguous and list_from_ambiguous give the same path for a string, a SectionPath and a Selector item, with base and manager stripping applied as asked, and refuse anything else.",
 ['inputs'],'every section path and base path',
 'Universally quantified algebraic laws; tests sample a few strings.',
 [B+'sectionpath/sectionpath.py'],
 'Splitting and joining on dots and path separators',
 None,['returned SectionPath objects'])
prop('C19','Loading is all or nothing and managers are found by what they own',
 "A load that raises at any point leaves no modules imported by it behind and can be retried successfully once the cause is fixed, without having lost any existing config file or dict file contents (also when it is interrupted while writing), and errors raised by user code run by load propagate unchanged; a manager whose reload failed shows the names, configuration and objects it had before; accessing items of a manager that is not loaded raises PipelineManagerNotLoadedException. A file path or section path is resolved to the active manager which owns it, whatever other managers with similar names or folders exist, a manager replaced by another of the same name does not remove its successor when it is collected, and conflicting or incomplete manager definitions are refused.",
 ['fault_sequences','configurations'],'every point of failure during load and every set of managers with prefix-related names and folders',
 'Partial failures and look-alike names and folders are exactly the cases samples omit.',
 [B+'main.py',B+'imports/models/tracker.py',B+'pmcontext/main.py'],
 'ImportTracker wipes modules on failure; managers register themselves in the context by name',
 ['sys.modules','context.active_managers'],['sys.modules after failed loads','resolved managers','exceptions'])
prop('C20','Specific class options are honoured for every item of the class dict',
 "For every item of a specific class dict, at any nesting and in any of several class dicts, the configured class is constructed with its config file's values, its key_attr holds the item's name (also before loading), running the item calls exactly its execute_attr on that object, and always_import_strs and always_assign_strs are available in its config file. Items of one class dict never take their class, key, execute attribute or always-assigns from another.",
 ['configurations'],'every combination of class dicts, options, nestings and item names',
 'Options are threaded through recursive constructors; a dropped or swapped option appears only for particular combinations.',
 [B+'data/models/collection.py',B+'data/models/file.py',B+'data/models/config.py',B+'basemodels/collection.py',B+'data/logic/convert.py',B+'runner/models/runner.py',B+'main.py'],
 'Options are passed from the config dict to collections recursively and looked up again by class at run time',
 None,['constructed objects','recorded calls','config files'])
prop('C21','What can be looked up is exactly what is registered now',
 "At any time, dir() of a manager, of its sections, of a Selector and of its section and item views lists exactly the managers, sections, items and attributes which are registered, besides the fixed methods; `in Selector` and attribute look up succeed for exactly the registered section paths, an item's type tells its kind, and anything else raises the documented error. Items and managers registered, created, loaded again or removed later are seen by Selectors made before, managers which are not loaded can be listed, and looking executes no code and changes nothing.",
 ['histories','configurations'],'every project and every history of load, create, reload, edits of the dict files and removal of managers, with Selectors made at any time',
 'Stale listings appear only after particular histories of creates and reloads with Selectors made before, and for particular nestings and kinds of sections.',
 [B+'selector/models/selector.py',B+'selector/models/itemview.py',B+'views/object.py',B+'main.py',B+'basemodels/collection.py',B+'runner/models/runner.py',B+'pmcontext/main.py'],
 'Selector builds a structure of the managers which must follow the registries of active managers',
 ['Selector structure','context.active_managers','collections'],['dir()','results of look ups','exceptions raised'])
prop('C22','What happens depends on the project and the operations only',
 "What py-file-conf does with a project is reproducible: the files it writes (byte for byte), the calls of the user's code and their arguments, results, change hooks and exceptions of any history of operations are the same for every hash seed, order of directory listing, locale encoding, interpreter flags (-O, -X dev), timing of garbage collection, working directory, place and name of the project folder, and other managers used before in the process. Only the order in which several dependents of a changed item are brought up to date is not determined.",
 ['configurations','schedules','histories'],'every history of operations in every pair of environments',
 'A test runs in one environment at a time; dependence on iteration order of sets, on default encodings, on assert statements, on the working directory or on what remains of earlier managers shows only by comparing executions.',
 [B+'main.py',B+'io/file/load/parsers/extname.py',B+'io/func/load/extractimp.py',B+'io/file/load/parsers/base.py',B+'io/file/write/save.py',B+'sectionpath/sectionpath.py',B+'selector/models/selector.py'],
 'Imports and names are collected in order; files are opened with an explicit encoding; paths are absolute',
 ['sys.modules','context.active_managers'],['transcripts of the same history in different environments'])
prop('C23','Work with a project leaves what surrounds it alone and does not accumulate',
 "Whatever is done with a project, successful or failing, what surrounds it is as before: import path, working directory, environment, signal handlers, warning filters, standard streams and hooks, random state, logging outside of the pyfileconf logger, threads, file descriptors and other state of the process; the user's functions and classes, standard modules, and the lists and dictionaries which were passed as arguments. The library writes, renames and removes files only within the default config folder while loading, loading again or creating (and the dict files and project folder when creating those) and in the log folder which was set, starts no process and opens no connection. Repeating any operations, failing ones and loading included, makes neither the number of objects, modules nor file descriptors grow.",
 ['histories','fault_sequences'],'every operation and history of operations, in every state of the process, with failures of user code and files',
 'Tests look at what is asked for, not at what else happens; leaks into the process appear on failure paths and with particular surroundings, and accumulation only over many repetitions.',
 [B+'main.py',B+'imports/models/tracker.py',B+'imports/models/statements/obj.py',B+'io/file/write/save.py',B+'io/file/load/active/userdef.py',B+'views/object.py',B+'logger/bind_stdout.py',B+'logger/logger.py',B+'pmcontext/stack.py'],
 'Operations import and execute user code, replace stdout, track modules and write files',
 ['process-global state','context.stack','sys.modules'],['snapshots of the process','audit events','tracked objects','user functions and classes'])
prop('C24','An operation which failed part way can be repeated or given up',
 "When using, updating, batch updating, resetting or refreshing an item fails at any point (a file cannot be read, or a config file, constructor, update function, called function or hook raises or is interrupted), the caller gets that exception, nothing remains on the stack of running items, items which do not depend on the item keep their values, and each value of those which do is the one before or the one after. Repeating the operation then completes it: the item, objects of it which are held, and every dependent in any manager are as if it had succeeded at once; resetting the item instead brings all of them to its defaults.",
 ['fault_sequences','histories','crash_points'],'every network of items, operation, point at which it fails (including failing repeatedly), exception, and history around it',
 'An operation changes a config, an object and any number of dependents one after the other; tests let all of it succeed.',
 [B+'runner/models/runner.py',B+'config/models/manager.py',B+'basemodels/config.py',B+'pmcontext/tracing.py',B+'plugin/default_hooks.py',B+'config/logic/apply.py',B+'batch.py'],
 'Changes go from the config through hooks to the loaded object and the dependents; unfinished changes are remembered',
 ['Runner._loaded_objects','Runner._unfinished_changes','context.stack','context.force_update_dependencies'],['held objects','pm.config.get','recorded calls','exceptions','context.stack'])
prop('C25','Projects are begun from what is there and go on over sessions',
 "Constructing a manager over a folder in any state (missing with its parents, empty, holding some of the dict files, the config folder under any name, or unrelated files) makes exactly the missing parts of the project - the config folder, an empty pipeline dict, an empty class dict for each specific class, the log folder when one is set - and changes no file which is there; a manager which is refused changes nothing. From there items can be created, configured and used, and every later session finds exactly the items in the dict files with the values in their config files; config files, folders or dict files lost in between are made again with defaults, without touching what remains.",
 ['histories','configurations'],'every state of the folder, name of the config folder, set of specific classes and history of sessions with losses between them',
 'Tests begin with complete generated projects which are removed afterwards; what is kept and made depends on the combination of parts which are there.',
 [B+'main.py',B+'pipelines/models/collection.py',B+'data/models/collection.py',B+'pipelines/models/dictfile.py',B+'data/models/dictfile.py',B+'config/models/section.py'],
 'The constructor creates missing parts of a project; loading scaffolds config files; create edits dict files',
 ['files below the folder','context.active_managers'],['files on disk before and after','recorded calls','pm.get','Selector'])
json.dump  # noqa
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
