prop('C01', 'The strongest layer with an opinion wins',
     'In the composed view of any stack of layers, a node exists exactly '
     'where some contributing layer has it, and each of its attributes (value, '
     'type, comment, reported source) and fields (code, comment, enabled '
     'state, execute-in, start point, position, collapsed state) shows the '
     'opinion of the strongest layer that has one. Falsy values and empty strings are opinions; an '
     'absent, null or empty-list field is not.',
     ['inputs'], 'every stack of layers and every way of spreading opinions '
     'over nodes and layers',
     'tests compose a handful of fixed files; the guarantee is about all '
     'combinations of present, absent, empty and falsy opinions across a '
     'stack',
     [('pre proxy comp', S + ':Stage.comp_pre_proxies'),
      ('build', S + ':Stage.build_stage'), ('spec nodes', N +
       ':create_spec_node'), ('attr reads', S +
       ':Stage.get_node_attr_value')], ENUM,
     'exhaustive over <=3 (thorough 4) layers x 4 nested nodes x opinion '
     'kinds; every ordered pair of declaring sites is distinguished')
prop('C02', 'Attributes are inherited in one documented order',
     'A node reads an attribute it does not declare from its nearest source '
     'in a fixed order: its own opinions from strong to weak layer, then its '
     'parent chain, then its instance source and that source\'s own chain, '
     'with a parent shared with the instance source coming after it. Relative '
     'instance paths mean the same node as their absolute form. The set of '
     'attribute names a node has is exactly what that order can reach.',
     ['inputs'], 'every arrangement of parents, instances and declaring '
     'nodes over one or more layers',
     'tests fix one arrangement each; the order only shows when every subset '
     'of possible sources declares the attribute',
     [('post proxy comp', S + ':Stage.post_proxy_comp'),
      ('base classes', S + ':Stage._safe_mro_add_base_class'),
      ('instance sort', S + ':Stage.sort_instances')], ENUM,
     'all instance skeletons over 5 (thorough 6) nodes in one layer and 4 '
     'nodes in two (three) layers; one attribute per pair of sites')
prop('C03', 'An instance mirrors its source, and composing ends',
     'A node that instances another shows every descendant of its source as '
     'a node of its own (marked as proxy where no layer has it), linked to '
     'the matching source node, down to any depth and through chains of '
     'instances; explicitly blanking the instance path stops that. Code, '
     'comment and enabled state fall through to the instance source, '
     'execute-in and start point do not. Composing terminates for every '
     'instance graph, cyclic ones included.',
     ['inputs'], 'every instance graph over a universe of nested nodes and '
     'layers', 'tests compose a few acyclic graphs; mirroring is a fixpoint '
     'whose termination and completeness depend on the shape and order of '
     'the graph',
     [('discovery', S + ':Stage.discover_proxies'),
      ('fixpoint', S + ':Stage.comp_proxies'),
      ('proxy nodes', S + ':Stage.create_instance_node')], ENUM,
     'all instance graphs over 5-7 nodes incl. cyclic ones (termination '
     'only), implied levels, two layers')
prop('C04', 'Mute, solo and start layer decide what is composed',
     'The composed view from any start layer equals composing exactly the '
     'active layers: the soloed ones if any is soloed, else all, minus the '
     'muted ones. An override held by a referencing layer replaces a '
     'layer\'s own mute or solo state, the outermost override winning, and '
     'never alters the layer\'s own flag.',
     ['configurations'], 'every combination of flags and overrides over a '
     'tree of layers, and every start layer',
     'tests toggle one flag at a time',
     [('active layers', L + ':get_active_layers'),
      ('overrides', L + ':get_comped_layer_overs'),
      ('build', S + ':Stage.build_stage')], ENUM,
     'all flag combinations for 4 layers, all override combinations for 3, '
     'chain and tree shaped references')
prop('C06', 'Merged child order respects every opinion',
     'The composed child order of a node never repeats or invents a name, '
     'holds every name its contributing opinions hold, keeps the strongest '
     'opinion\'s order as it is and orders the remaining names by the next '
     'opinions in strength (layers first, then the instance source). Ordered '
     'child queries return the existing children in exactly that order.',
     ['inputs'], 'every set of child order opinions over layers and '
     'instance chains',
     'list merging is tested on a few lists; the guarantee is about all '
     'combinations',
     [('merge', N + ':list_merger'), ('layers', S +
       ':Stage.comp_pre_proxies'), ('instances', S +
       ':Stage.discover_proxies'), ('queries', L + ':SpecLayer.children')],
     ENUM, 'all ordered selections of 3-4 names x which children exist, for '
     '2-3 layers and instance chains of 2-3')
prop('C21', 'Node path algebra is consistent',
     'Splitting, joining, trimming, re-rooting and relating node paths agree '
     'with treating a path as the list of its names: parent, name, depth, '
     'root, ancestors and namespace are inverse to joining, an attribute '
     'path splits back into its node and attribute, and only true ancestors '
     'count as ancestors. A relative path resolves from its start node one '
     'directive at a time and never climbs above the world.',
     ['inputs'], 'every node path, pair of paths and relative path',
     'tests check single examples; names that are prefixes of one another '
     'and paths at the world boundary are where string code goes wrong',
     [('paths', 'nxt/nxt_path.py:expand_relative_node_path'),
      ('re-rooting', 'nxt/nxt_path.py:replace_ancestor'),
      ('ancestry', 'nxt/nxt_path.py:is_ancestor')],
     'bounded exhaustive enumeration of paths and directives against tuples',
     'all paths to depth 3-4 over prefix-sharing names, all pairs, all '
     'triples for re-rooting, all relative paths to 5-7 directives')
prop('C36', 'Layer queries agree with the nodes that exist',
     'After any sequence of node additions and deletions, looking up nodes '
     'and asking a layer for children, descendants or ancestors, in every '
     'return form, ordered or not, with or without implied nodes, and '
     'repeatedly, answers exactly according to the set of nodes that exist. '
     'The same holds in a freshly composed layer, where a node whose parent '
     'has no opinion belongs to its nearest existing ancestor.',
     ['histories', 'inputs'], 'every add/delete history and every set of '
     'nodes, with saved child orders',
     'answers come from caches whose staleness depends on the history; tests '
     'query fresh layers once',
     [('queries', L + ':SpecLayer.children'), ('descendants', L +
       ':SpecLayer.descendants'), ('caches', L +
       ':SpecLayer.clear_node_child_cache'), ('ancestors', L +
       ':SpecLayer.ancestors')], HIST,
     'all add/delete sequences to depth 4 (6) over 7 paths with implied '
     'parents; all 2-layer subsets of that universe')
prop('C20', 'Tokens are found and resolved as written',
     'Token parsing finds exactly the outermost, balanced ${...} tokens of '
     'any text, left to right, and nothing when one is left open; wrapping '
     'and unwrapping a token are inverse. Resolving a text replaces each of '
     'its tokens, once, by what it denotes: an attribute by its resolved '
     'value as seen on the node it is read from (nested and relative '
     'references, other nodes, inherited attributes), a missing one by '
     'nothing, node path, color, path, file contents and plugin tokens by '
     'theirs; all other text and already substituted text is untouched, in '
     'values and in code lines. The typed value of a resolved attribute is '
     'the python literal it spells, else the text itself.',
     ['inputs'], 'every text over the token syntax, every acyclic web of '
     'references between nodes, every literal',
     'tests resolve a dozen fixed strings; failures hide in how tokens nest, '
     'repeat and produce one another',
     [('tokens', 'nxt/tokens.py:get_standalone_tokens'),
      ('partition', 'nxt/tokens.py:atomic_token_partition'),
      ('resolve', S + ':Stage.resolve'),
      ('attribute references', S + ':Stage.resolve_attr_ref_token'),
      ('types', S + ':determine_nxt_type'),
      ('example plugin', 'nxt/plugins/example.py:resolve_token')],
     'bounded exhaustive enumeration of texts and reference webs, compared '
     'with an independent resolver',
     'all strings of 7 (8) fragments; all triples of 30 value templates on '
     '3 attributes of 2 nodes; all literals of 4 (5) fragments')
prop('C22', 'File paths expand from the given start',
     'Expanding a file path substitutes the environment variables of either '
     'platform\'s syntax once, from left to right, leaves unknown ones in '
     'place, expands the user directory, and resolves relative parts and '
     'links from the given start directory (the working directory when none '
     'is given). The working directory is the same afterwards, whether or '
     'not the expansion succeeds, and an expanded path expands to itself.',
     ['inputs', 'configurations'], 'every path text, start directory and '
     'environment',
     'tests expand a few paths on one platform; adjacency of variables, '
     'links and ".." only go wrong in combination',
     [('expand', 'nxt/nxt_path.py:full_file_expand'),
      ('variables', 'nxt/nxt_path.py:unify_env_vars')],
     'bounded exhaustive enumeration of path texts in a real directory tree, '
     'compared with a reference walk',
     'all strings of 4 (5) fragments of 16, 5 (6) of 10, from 7 starts; '
     'unusable starts')
prop('C23', 'File tokens search roots and layers in order',
     'A file token resolves to the first existing file when its content is '
     'looked up in the configured search roots, in order, and then in the '
     'directory of the layer, first for the composed view itself and then '
     'for the view from each lower layer in turn, each with that view\'s own '
     'values of the attributes it mentions; to nothing when there is none. '
     'A file list token is the list of all such files, strongest first, '
     'without repeats; muted and non-soloed layers take no part, and '
     'unusable roots and layers whose folder is gone are passed over. A path token is the path in the first usable root, '
     'else in the layer\'s directory.',
     ['inputs', 'configurations'], 'every placement of files over roots and '
     'layer directories, every setting of the name over layers, every mute '
     'and solo state and list of roots',
     'tests use one fixed tree of files; the search is a product of places, '
     'layers and values',
     [('search', 'nxt/plugins/file_fallbacks.py:generate_historical_values'),
      ('references', 'nxt/plugins/file_fallbacks.py:'
       'historical_resolve_attr_ref'),
      ('roots', 'nxt/plugins/file_fallbacks.py:file_root_fallback'),
      ('path token', 'nxt/plugins/file_fallbacks.py:'
       'resolve_path_token_in_roots')], ENUM,
     'all subsets of 5 places x name settings over 3 layers x mute/solo x '
     'start layers x root lists, 23 token shapes')
prop('C37', 'Histories, lower comps and origins are reported truly',
     'The inferred lower view of a node equals the node in a composition '
     'that really starts at that layer. The opinion history of an attribute '
     'lists every opinion the lookup order can reach, falsy ones included, '
     'strongest first, each with its layer and node. Attributes are split '
     'into local, inherited and instanced ones without overlap or '
     'omission, and the layers reported to hold an opinion are exactly '
     'those that do.',
     ['inputs'], 'every document and depth; every declaring arrangement',
     'tests read histories of one or two nodes; inference re-implements '
     'composition separately and can silently drift from it',
     [('inference', S + ':Stage.infer_lower_comp'),
      ('history', S + ':get_historical_opinions'),
      ('origins', S + ':Stage.get_node_instanced_attr_names'),
      ('opinions', S + ':Stage.get_layers_with_opinion')], ENUM,
     'all 2 layer documents over 4 nodes with <=2 (any) instances, 3 layer '
     'ones with plain upper layers')
prop('C13', 'A saved document loads back to the same document',
     'Saving a layer and loading the file gives back the same nodes, '
     'fields, attribute values, types and comments, child order, '
     'references and layer settings, falsy and blank ones included, and '
     'the composed view is unchanged. Saving what was loaded produces the '
     'same file, and after saving to a new path every source reported is '
     'the new file.',
     ['inputs'], 'every document: any combination of fields, attributes, '
     'values, missing parents and layer settings',
     'a serializer loses one shape at a time (falsy values, blank strings, '
     'proxy parents); tests save two sample graphs',
     [('node data', L + ':SpecLayer.get_node_as_dict'),
      ('layer data', L + ':SpecLayer.get_save_data'),
      ('load', L + ':SpecLayer.load_from_layer_data'),
      ('file', 'nxt/nxt_io.py:load_file_data'),
      ('new path', L + ':SpecLayer.set_real_path')], ENUM,
     'product of all field states; attribute tuples over 17 value shapes; '
     'node sets with missing parents; product of layer settings')
FAULT = 'exhaustive fault injection: every file system call of the real ' \
        'code killed, failed or torn, one at a time'
prop('C14', 'A save that dies or fails leaves a whole document behind',
     'If the process is killed, or a file system call fails, at any point '
     'while a layer or a cache is saved or a graph is converted in place, '
     'the file holds either the complete old document or the complete new '
     'one. A save that reports success has written the new one; values '
     'that cannot be written never damage the existing file. Links and '
     'file modes survive, and the file can be saved again afterwards.',
     ['crash_points', 'fault_sequences'], 'every file system call of every kind of '
     'save, killed before or after, failed, or torn',
     'no test interrupts a save',
     [('write', 'nxt/nxt_io.py:save_file_data'),
      ('layer save', L + ':SpecLayer.save'),
      ('cache save', L + ':CacheLayer.save'),
      ('conversion', 'nxt/legacy.py:cli_file_convert')], FAULT,
     '5 operations x 5 targets x 2 sizes x every call x kill/4 errors/torn '
     'writes; process death, not power loss')
prop('C15', 'Only readable files are opened, and refusals are clean',
     'A file is opened exactly when it has a known extension, holds a '
     'document, and its version is not newer than this program and not '
     'older than the oldest convertible one; a missing version means the '
     'current one. Everything else is refused with an error, in finite '
     'time, leaving files, loaded graphs and the working directory as they '
     'were; an unreadable reference does not stop the rest from loading.',
     ['inputs'], 'every version string, extension, broken content and way '
     'of loading',
     'tests only open good files of the current and one old version',
     [('gate', 'nxt/nxt_io.py:load_file_data'),
      ('converter gate', 'nxt/legacy.py:FileConverter.determine_version'),
      ('references', S + ':Stage.load_from_file')], ENUM,
     'majors 0..3 x minors 0..50 x suffixes, malformed versions, 8 '
     'extensions x 9 contents, 8 ways of loading')
prop('C16', 'Older files load as the documents they were',
     'A document written in the layout of any convertible older version '
     'loads as the same nodes, child order, start points, references and '
     'layer settings as the same document written today. Converting the '
     'file gives the same result, and converting a converted document '
     'changes nothing.',
     ['inputs'], 'every document in the layout of every older version',
     'one old file is compared with one expected file',
     [('converters', 'nxt/legacy.py:FileConverter'),
      ('pre release', 'nxt/legacy.py:V1'), ('1.9', 'nxt/legacy.py:V109'),
      ('1.14', 'nxt/legacy.py:V114'), ('1.15', 'nxt/legacy.py:V115')], ENUM,
     '7 trees x tuples of 14 node shapes x old versions; product of layer '
     'settings x 0..2 reference records x every old version')
prop('C17', 'References load in order, relative to the file that names them',
     'Loading a file loads every file it references, depth first and in '
     'order, each path taken from the first search root that has it, else '
     'relative to the file that names it, whatever the working directory, '
     'which is left as it was. Files that are missing, unreadable or '
     'already open above are left out without stopping the rest; the order '
     'of the layers is their strength.',
     ['inputs', 'configurations'], 'every reference graph; every spelling of '
     'a path, placement of files, search roots and working directory',
     'tests load fixed sample files from one directory',
     [('load', S + ':Stage.load_from_file'),
      ('expand', 'nxt/nxt_io.py:load_file_data'),
      ('roots', 'nxt/plugins/file_fallbacks.py:file_root_fallback'),
      ('paths', 'nxt/nxt_path.py:full_file_expand')], ENUM,
     'all graphs over 3 files with <=2 references each (<=3 thorough); 14 '
     'spellings x 10 root lists x placements x cwd')
prop('C18', 'Adding and removing layers keeps stack and files in step',
     'After any sequence of adding layers below or above others, removing '
     'layers (whether or not the graph was built before), saving and '
     'reloading, the stack is the one the references '
     'spell out, in the order a fresh load of the saved files gives. '
     'Removing a layer removes exactly it and everything it brought in, '
     'also where another layer spells another file the same way; adding '
     'one brings in everything it references, in order.',
     ['histories'], 'every sequence of operations',
     'no test adds or removes layers of a loaded stage',
     [('add', S + ':Stage.new_sublayer'),
      ('remove', S + ':Stage.remove_sublayer'),
      ('parents', S + ':Stage.assign_layer_parents'),
      ('references', L + ':SpecLayer.get_references')], HIST,
     'all sequences of length <=3 (4) from 4 stacks over 7 files, built and '
     'not yet built')
prop('C19', 'Layer settings take effect and are kept where they were made',
     'The alias, color, lock, mute and solo state reported for a layer is '
     'the outermost referencing layer\'s override, else the layer\'s own '
     'value, after any sequence of changes, saves and loads. Changing a '
     'setting changes only the table of the layer it is kept in, clearing '
     'an override reveals what it hid, and mute and solo decide exactly '
     'which layers take part in the composed view.',
     ['histories'], 'every sequence of setting changes on every layer',
     'tests read settings of one loaded sample; none sets or clears them',
     [('effective', L + ':get_comped_layer_overs'),
      ('setters', L + ':SpecLayer.set_alias_over'),
      ('mute', L + ':SpecLayer.set_mute_over'),
      ('active', L + ':get_active_layers')], HIST,
     'all pairs of 80 operations and triples (quadruples) of related ones '
     'from 4 starting tables, 4 layers in a tree')
prop('C08', 'Editing a node changes exactly what was asked',
     'After any sequence of edits (setting, adding, deleting and renaming '
     'attributes; code, comment, execute-in, enabled, start point, instance, '
     'child order; adding nodes; copying the composed look of a node into a '
     'layer) the edited layer\'s document differs from what it was exactly '
     'by those edits, and no other layer\'s document changes. The layer\'s '
     'own queries, the composed view, and a stage loaded from the saved '
     'documents all show the edited documents.',
     ['histories'], 'every sequence of edits, each on every node and layer',
     'tests make one edit on a fixed file and look at one field; stale '
     'caches, shared lists and lost siblings need sequences',
     [('attrs', S + ':Stage.node_setattr_data'),
      ('code', S + ':Stage.set_node_code_lines'),
      ('add', S + ':Stage.add_node'),
      ('localize', S + ':Stage.set_node_data')], HIST,
     'all pairs of edits (triples when thorough) over 4 starting documents '
     'with implied nodes, layers and instances')
prop('C09', 'Renaming and moving nodes takes everything beneath along',
     'Renaming a node, or moving nodes under another parent, gives the node '
     'and everything beneath it, real or below implied nodes, the '
     'corresponding new paths with content, child order and collapse state '
     'unchanged. No other node changes, is lost or is overwritten; a name '
     'already in use is replaced by an unused one.',
     ['histories'], 'every tree shape, target and preceding edit',
     'tests move and rename one node of a fixed file',
     [('rename', S + ':Stage.set_node_name'),
      ('move', S + ':Stage.parent_nodes'),
      ('unique', S + ':Stage.get_unique_node_name')], HIST,
     'all renames, single and double moves over 5 documents, alone and after '
     'every structural edit')
prop('C10', 'Deleting removes exactly the chosen nodes',
     'Deleting a node removes it and, when asked, all of its descendants '
     'from that layer, along with their saved positions and collapse '
     'states, and nothing else. Without descendants the children stay where '
     'they are; the parent\'s child order keeps the order of the rest.',
     ['histories'], 'every tree, node and sequence of edits before and after',
     'tests delete a few nodes of fixed files',
     [('delete', S + ':Stage.delete_node'),
      ('children', L + ':SpecLayer.children')], HIST,
     'all deletions over 5 documents, before and after every structural '
     'edit')
prop('C11', 'Names are legal and never clash',
     'Whatever name is asked for, a new, renamed or moved node and a new or '
     'renamed attribute gets a legal name (letters, digits and underscores, '
     'not starting with a digit) that nothing else in the composed view, or '
     'on the node, or inside nxt uses. A legal and unused name is given as '
     'asked.',
     ['inputs', 'histories'], 'every wished name and every sequence of wishes',
     'tests try a few names; clashes need wishes that become equal once made '
     'legal or numbered',
     [('node', S + ':Stage.get_unique_node_name'),
      ('attr', S + ':Stage.get_unique_attr_name'),
      ('legal', S + ':Stage.legalize_name')], ENUM,
     'all strings of <=3 (4) pieces from 11, plus every name reserved by '
     'python or nxt; sequences of 2 (3) wishes below 12 parents')
prop('C12', 'A duplicate is equal to, and independent of, its original',
     'Duplicating a node makes one new node next to it, with the same '
     'content under an unused name; with descendants everything beneath it '
     'is copied under the same names. The original is unchanged, and later '
     'edits of one do not show in the other.',
     ['histories'], 'every node and every edit before and after',
     'tests duplicate two fixed nodes and look at names only',
     [('duplicate', S + ':Stage.duplicate_node'),
      ('data', N + ':get_node_as_dict')], HIST,
     'all duplications over 5 documents, after every structural edit and '
     'before every edit of original or copy')
prop('C24', 'Nodes execute in the documented order, each exactly once',
     'Executing from a node runs it, then everything after it beneath the '
     'same root in depth-first child order, then the root that executes in '
     'that root with everything beneath it, and so on. A disabled node and '
     'all beneath it is skipped, no node runs twice, and the order always '
     'ends. Without a start, a start point is used or the request refused.',
     ['configurations', 'inputs'],
     'every shape of graph, child order, enabled state, link and start node',
     'tests execute three fixed graphs; skipped subtrees, links and starts '
     'in the middle combine freely',
     [('order', L + ':CompLayer.get_exec_order'),
      ('roots', L + ':CompLayer.get_root_exec_order'),
      ('execute', S + ':Stage.execute')], HIST,
     'forests of <=5 nodes with all orders and enabled states, all '
     'execute-in graphs over 3 (4) roots, two-layer and instanced variants')
prop('C25', 'Runtime values are typed, passed on and kept apart',
     'While a graph runs, node code sees each attribute as the python value '
     'its text denotes, with tokens resolved to current values. A value it '
     'changes is seen by later nodes that inherit or reference the attribute '
     'and have no opinion of their own, by nobody else; in-place changes of '
     'an inherited value stay with the node that made them. Every later '
     'execution on the same runtime layer continues from there.',
     ['programs', 'histories'], 'every program, graph shape and run order',
     'tests run fixed graphs; who sees a change depends on inheritance, '
     'instances, types and order together',
     [('run', S + ':run'),
      ('typed', S + ':Stage.get_attr_as_real_data_type')], HIST,
     'all assignments of 11 programs to 3 nodes, own value placements, run '
     'orders, two-layer and world variants, sequences of 2 (3) executions, '
     '54 literals; reference interpreter compared after every execution')
prop('C26', 'Exits and failures end exactly what they should, and say where',
     'ExitNode ends the node, ExitGraph the whole execution, both keeping '
     'what was set before; any other exception ends the execution without '
     'passing the values of the failing node on. The error names the graph, '
     'node, line number and line of code that failed. The runtime layer '
     'stays usable, unknown nodes are refused and disabled ones passed over.',
     ['programs', 'histories'], 'every way a node can end, at every position',
     'tests cover one exit and one error; nesting, catching and what happens '
     'next are combinations',
     [('run', S + ':run'), ('console', 'nxt/runtime.py:Console.runcode'),
      ('nodes', S + ':Stage.execute_nodes')], HIST,
     'all endings over chains of 3 (4) nodes and nested calls, then a second '
     'execution; 15 failures between all code fragments, checked line')
prop('C27', 'Only global names outlive the code of a node',
     'A name that node code declares global, in whatever form, and all names '
     'the world code defines are available to every later node. Every other '
     'name a node assigns is gone when it ends, however it ends.',
     ['programs'], 'every sequence of programs',
     'tests look at one imported name; forms of the statement, look-alike '
     'names and failures vary freely',
     [('clean', S + ':clean_globals'), ('run', S + ':run')], HIST,
     'all triples of 14 programs below 5 world codes, two executions each')
prop('C28', 'Node code can execute other nodes and graphs and then go on',
     'execute() in node or world code runs the named nodes, or the order '
     'from a start, on the same runtime layer with the given parameters, and '
     'then the caller continues as itself, with its own values. Exits and '
     'failures of the called nodes reach the caller as if raised there. A '
     'sub graph gets the attributes of the calling node, hands the changed '
     'ones of its world node back and affects nothing else.',
     ['programs'], 'every nesting of calls',
     'tests run two fixed sub graphs; re-entry, recursion and failures in '
     'the middle are not sampled',
     [('execute', S + ':Stage.setup_runtime_layer'), ('run', S + ':run'),
      ('sub graph', 'nxt/builtin/sub_graphs.nxt')], HIST,
     '14 calls x 8 x 8 called programs x endings, pairs of calls, calls from '
     'world code; all sub graph combinations of 6 small menus')
prop('C29', 'Execution parameters set exactly the attributes they name',
     'Each parameter sets the named attribute, creating it if needed, before '
     'any code runs (on a continued runtime layer: before the next node), as '
     'if its text had been the value in the graph. Parameters for unknown '
     'nodes or without a usable name are passed over and never stop the '
     'execution. The document is not changed.',
     ['inputs'], 'every parameter name and value, at every entry point',
     'tests pass one or two good parameters',
     [('set', S + ':Stage.set_runtime_parameters'),
      ('session', 'nxt/session.py:Session.execute_graph')], HIST,
     '20 names x 16 values x 4 documents x 6 entry points, all pairs of 11 '
     'names')
prop('C30', 'Executing a graph leaves the document as it was',
     'However a graph is executed and however it ends, its layers, their '
     'files and the composed view that was given are the same afterwards, '
     'and executing it again from the document sees exactly what the first '
     'execution saw.',
     ['programs', 'histories'], 'every program',
     'tests do not compare documents after an execution; a shared mutable '
     'value shows only with the right program',
     [('setup', S + ':Stage.setup_runtime_layer'), ('run', S + ':run')],
     HIST,
     'all pairs of 14 mutating programs x world programs x 5 entry points, '
     'each executed twice')
prop('C31', 'The cache of an execution tells what happened, also from a file',
     'After an execution the cache layer holds exactly the nodes that ran, '
     'each with the code that ran and the values its code left, even when it '
     'failed. Run times lie within each other as the runs did. Saving and '
     'loading the cache keeps all of it that json can hold.',
     ['programs', 'histories'], 'every program and every history of runs',
     'tests never save a cache; values and re-entrant runs vary freely',
     [('cache', L + ':CacheLayer'), ('run', S + ':run')], HIST,
     '29 x 29 values saved and loaded, all assignments of 9 programs to 3 '
     'nodes in 3 run orders, all enter/leave histories of <=6 (8) steps')
prop('C05', 'Composing and asking changes nothing',
     'The composed view is a function of the layers, their order and their '
     'mute and solo state alone: not of the order things are written in, of '
     'what was composed or asked before, or of how often. Composing and '
     'every question about a composed view leave documents, earlier views '
     'and the answers of all other questions as they were.',
     ['histories', 'inputs'], 'every history of composing, switching and '
     'asking',
     'tests ask one question per fresh stage; caches and shared lists only '
     'show in sequences',
     [('build', S + ':Stage.build_stage'), ('child cache', L +
       ':SpecLayer.children'), ('lower comps', S +
       ':Stage.infer_lower_comp')], HIST,
     'all instance skeletons in 5 orders; all histories of <=3 (4) steps; '
     'all ordered pairs of ~600 (question, node) in 3 (5) documents')
prop('C32', 'A temp copy of a graph composes to the same graph',
     'save_to_temp writes only below the output directory and returns a file '
     'which, once loaded, has the same layers and composes to the same view '
     '(values, code, overrides and mute or solo state, relative paths and '
     'file lookups included) as the view it was made from, unsaved edits '
     'included, wherever the files are and whatever they are called.',
     ['inputs', 'configurations'], 'every reference tree, placement and '
     'override', 'no test calls it; names and paths collide only in '
     'particular layouts',
     [('save', S + ':Stage.save_to_temp'), ('cwd', L +
       ':SpecLayer.get_cwd')], ENUM,
     'all trees of <=3 (4) files x 6 places x 4 ways to write a path, all '
     'overrides, 9 edits, every start layer, files referenced twice')
ENDS = 'exhaustive enumeration of commands, programs and the faults of ' \
       'the other side (every position and kind) on the real code, ' \
       'compared with the fault-free or local run'
prop('C33', 'The command line executes what it was asked for, or nothing',
     'Every nxt command that can be read executes exactly the graph, start, '
     'parameters (given or from a file) and context it names, in any order '
     'of options and behind any program prefix, ends in failure when the '
     'execution fails, and never takes a value for an option. A command that '
     'can not be read executes nothing and says so.',
     ['inputs', 'configurations'], 'every argument vector',
     'no test runs the command line; values and orders combine freely',
     [('cli', 'nxt/cli.py:main'), ('execute', 'nxt/cli.py:execute')], ENUM,
     'all commands of a grammar with every value at every place, all option '
     'orders, all unusable commands; a subset executed for real')
prop('C39', 'Executing in a context is executing here',
     'Executing a graph in a context, by the session, by the command line or '
     'by a remote sub graph node, runs the same graph with the same start '
     'and parameters as executing it in this process and brings back the '
     'same cache; a graph that fails there gives no made up result. A '
     'server that was started for it is shut down however it ends, and one '
     'that was running already is left alone.',
     ['programs', 'fault_sequences', 'configurations'],
     'every graph, start, parameter set and way to end',
     'no test starts a server or an interpreter',
     [('server', 'nxt/remote/server.py:ServerFunctions.exec_in_headless'),
      ('session', 'nxt/session.py:Session.execute_graph'),
      ('graph', 'nxt/builtin/_context.nxt')], ENDS,
     '13 programs x 9 starts x 8 parameter sets x 2 contexts, 160 remote '
     'nodes, every end of server, interpreter and execution; real servers '
     'and interpreters for a subset')
prop('C07', 'An open view follows edits of values, code and enabled states',
     'When an attribute (value, comment or name), the code or the enabled '
     'state of a node is edited in any layer and an open composed view is '
     'given along, that view afterwards answers every question about values, '
     'sources, code and enabled states of every node like a newly composed '
     'one: own layers before instances, nodes that depend on the edited one '
     'included. The same edit without a view leaves the same document.',
     ['inputs', 'histories'], 'every document, site and edit',
     'a test edits one node of one layer; weaker layers and chains of '
     'instances are where views go stale',
     [('code', S + ':Stage.set_node_code_lines'),
      ('enabled', S + ':Stage.set_node_enabled'),
      ('dirties', L + ':CompLayer.get_node_dirties')], HIST,
     'instance skeletons of 1-2 layers with patterns of opinions x 12 edits '
     'at every site, all pairs of code and enabled edits')
prop('C40', 'An open view follows adding and deleting nodes',
     'When nodes are added to or deleted from any layer (with data and '
     'children, alone or with descendants), or the children of a single-layer '
     'graph are reordered, and an open composed view is given along, that '
     'view afterwards has exactly the nodes, relatives, attribute values, '
     'sources, code and settings of a newly composed one, as long as every '
     'node has its parent and the nodes around the edit neither instance nor '
     'are instanced; instances elsewhere are untouched. The same edit without '
     'a view leaves the same document.',
     ['inputs', 'histories'], 'every document, layer and sequence of edits',
     'tests add one node and look at that node; what goes stale are the '
     'other layers\' opinions, the caches of children and later edits',
     [('add', S + ':Stage.add_node'), ('delete', S + ':Stage.delete_node'),
      ('insert', S + ':Stage.targeted_comp_pre_proxies'),
      ('cache', L + ':SpecLayer.add_child_to_child_cache')], HIST,
     'skeletons of 1-2 layers over 4 paths, with and without instances '
     'elsewhere; all sequences of 1-2 additions, deletions and orders')
prop('C41', 'A snippet runs as the node it is run in',
     'Code executed as a snippet in a node (or the world) of a graph sees and '
     'changes exactly what the code of that node would, with its own tokens '
     'resolved: on a runtime layer it continues from the current values and '
     'later nodes see what it set, elsewhere it leaves the document and the '
     'given view as they were. It never runs anything but itself, an exit '
     'ends only the snippet, a failure is reported with node and line, an '
     'unknown node is refused, and names it did not declare global are gone '
     'afterwards.',
     ['inputs', 'histories'], 'every snippet, node and history of executions',
     'a test runs one snippet; what goes wrong are blank and failing '
     'snippets, later runs of the same node and nested executions',
     [('snippet', S + ':Stage.execute_custom_code'),
      ('run', S + ':run')], HIST,
     'all sequences of 1-2 snippets and runs (15 snippets x 6 nodes, 3 runs) '
     'and selected triples, each followed by another run')
prop('C42', 'Working with graphs leaves the process as it was',
     'Loading, saving, converting, composing, resolving values and file '
     'paths, executing graphs, nodes and snippets, and copying graphs, in any '
     'order, any number of times and whether they succeed or fail, leaves the '
     'working folder, environment, import path, standard streams, signal '
     'handlers, garbage collection and other settings of the process as they '
     'were, keeps no file open, and leaves no thread or log handler behind '
     '(a session someone holds keeps its own log until that is stopped).',
     ['histories', 'inputs'], 'every sequence of operations, also failing '
     'ones',
     'tests end before anything adds up; a folder that is not restored '
     'only shows in what is done after a failure',
     [('expand', 'nxt/nxt_path.py:full_file_expand'),
      ('load', S + ':Stage.load_from_file'),
      ('temp files', 'nxt/nxt_io.py:generate_temp_file'),
      ('one shot', 'nxt/__init__.py:execute_graph'),
      ('session log', 'nxt/nxt_log.py:stop_session_log')], HIST,
     'all sequences of <=2 (3) of 64 operations, each of them three times in '
     'a row')
prop('C43', 'A started server is up, and ended by whoever started it',
     'Starting the server of a session, whatever the port, the time it needs '
     'and the options are, either ends with a server that answers (one that '
     'was there already, or exactly one new process that the session then '
     'owns), or, outside of standalone use, starts nothing, or is an error '
     'that leaves no process and no log receiver behind. The server logs '
     'where asked, the environment is as before. Executing a graph starts a '
     'server only if the graph or the context needs one, and a server is told '
     'to shut down exactly once, by the session that started it, also when '
     'the execution failed; other servers stay up.',
     ['configurations', 'histories', 'fault_sequences'],
     'every state of the host, start time and history of two sessions',
     'no test starts a server; what breaks are late, failed and foreign '
     'servers, and failed executions',
     [('start', 'nxt/session.py:RPCServerProcess.run'),
      ('end', 'nxt/session.py:Session.shutdown_rpc_server'),
      ('need', 'nxt/session.py:Session.start_rpc_if_needed'),
      ('execute', 'nxt/session.py:Session.execute_graph')], HIST,
     'all starts in 2 x 3 host states x 9 start times x 18 options; all '
     'histories of two sessions of <=2 (3) of 28 and 3 (4) of 16 operations')
prop('C44', 'Processes that start at the same time all start',
     'Any number of nxt processes started at once by one user, from any state '
     'of the user and temp folders, all come up with the user folders in '
     'place, and the session of each gets a log file of its own, whichever '
     'way their file system calls interleave; the log of an earlier session '
     'is never taken over.',
     ['schedules', 'configurations'], 'every interleaving of file system '
     'calls',
     'one process at a time never meets an other between a look and an act',
     [('folders', 'nxt/constants.py:USER_CONFIG_DIR'),
      ('log name', 'nxt/nxt_log.py:get_new_session_log_filename'),
      ('log', 'nxt/nxt_log.py:make_session_log')],
     'stateless exploration of the real start up code: all schedules of the '
     'file system calls of 2 and 3 processes up to a preemption bound',
     'all schedules with <=2 (3) preemptions of 2 and <=1 (2) of 3 processes, '
     'from 8 initial states')
prop('C45', 'Plugins load once and extend tokens and references',
     'A newly started nxt loads each plugin (module or package) in the '
     'user\'s, the site\'s and its own plugin folder, in that order, once '
     'per name, and passes over everything else there. Of the registered '
     'tokens the first that detects a token resolves it, before the builtin '
     'ones, wherever tokens are resolved; a token that resolves to None is '
     'empty. The registered reference expanders are tried in order and the '
     'first path that exists is the layer, else the relative path is.',
     ['configurations', 'inputs'], 'every spread of plugins over the plugin '
     'folders, every set and order of registered tokens and expanders, every '
     'place a token is resolved',
     'tests run with the builtin plugins only and register nothing',
     [('loading', 'nxt/plugin_loader.py:load_plugins'),
      ('folders', 'nxt/constants.py:PLUGIN_DIRS'),
      ('tokens', 'nxt/tokens.py:register_token'),
      ('token type', S + ':Stage.determine_token_type'),
      ('references', 'nxt/nxt_io.py:load_file_data')], ENUM,
     'every pair of 10 kinds of file over user and site folder x 7 names, '
     'every pair of 9 tokens in two folders, every pair of 6 reference '
     'expanders, each in a newly started nxt')
prop('C35', 'A created context is available, now and after a restart',
     'After a context is created (from any name, interpreter, startup graph '
     'or none, and arguments) it is known at once under exactly that name, '
     'with that interpreter, those arguments and a startup graph that is the '
     'file given, from whatever folder it is used; a newly started nxt knows '
     'the same contexts, and graphs execute in it. A name that is taken, an '
     'empty name or a missing startup graph is refused, and then no context '
     'and no file changed. Two nxts that create contexts in turn or at once '
     'each keep the other\'s. Nothing created keeps nxt from starting.',
     ['inputs', 'histories'], 'every name, path, argument and order of '
     'creations',
     'no test creates a context; what breaks are odd names and paths, other '
     'folders and restarts',
     [('create', 'nxt/__init__.py:create_context'),
      ('registry', 'nxt/remote/contexts.py:register_context'),
      ('plugins', 'nxt/plugin_loader.py:load_plugins')], HIST,
     '21 names x 9 interpreters x 10 graphs x 5 argument lists in batches, '
     'all pairs of creations over a pool, each in fresh processes with a '
     'restart; executions in created contexts')
prop('C34', 'Messages and log records cross a socket whole',
     'Every log record sent to the log receiver is logged there once, whole '
     'and in order, however the network cuts the stream; a connection that '
     'ends or breaks ends its reading, and a receiver that was shut down '
     'gives its port back. Every command of the socket client reaches the '
     'server as messages of its framing, inside a wait that is ended, and no '
     'fault of the socket changes how the command ends or makes logging '
     'fail.',
     ['fault_sequences', 'histories', 'inputs'],
     'every cut, fault position and command history',
     'no test opens a socket; faults need a position',
     [('receiver', 'nxt/nxt_log.py:LogRecordStreamHandler.handle'),
      ('client', 'nxt/remote/nxt_socket.py:SocketClientModel'),
      ('send', 'nxt/remote/nxt_socket.py:send_to_server')], ENDS,
     'all 1-3 cuts and ends of record streams at every byte, all client '
     'histories of <=3 (4) commands x every single (pairs of) socket fault')
prop('C38', 'Logs say what happened, once, where asked, and are tidied',
     'After any history of verbosity switches exactly the messages of the '
     'chosen verbosity are shown, each once. Every session has a log of its '
     'own that gets every message from its start to its stop, once. Tracking '
     'a log removes nothing but tracked log files older than two days, '
     'forgets those that are gone, keeps the others tracked, and never fails '
     'whatever the list or the files look like.',
     ['histories', 'fault_sequences', 'configurations'],
     'every history of switches and sessions, every set of tracked files',
     'tests start one session; removal of files must be right for all '
     'lists', [('verbosity', 'nxt/nxt_log.py:set_verbosity'),
               ('session log', 'nxt/nxt_log.py:make_session_log'),
               ('tracking', 'nxt/nxt_log.py:track_log_file')], HIST,
     'all switch histories <=3 (5), session histories <=5 (6), all sets of '
     '<=3 (4) tracked files of 10 kinds x 5 list states')
