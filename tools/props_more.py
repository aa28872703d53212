prop('C09', 'What was accepted stays acceptable',
     '''Once a property has accepted a value, the owner validates with it,
     assigning the stored value again is accepted and changes nothing, and
     reading it back gives the stored value. Acceptance does not depend on how
     the value got there (constructor, attribute, direct validation).''',
     ['inputs', 'configurations'],
     '''one property of every kind with symbolic configuration and one symbolic
     value of any kind; text rules that contradict each other are outside''',
     '''Idempotence of validation is a relation over every value and every
     configuration; tests check the first acceptance only.''',
     [B, CONT, UNION, INST, WEB], [('validation on set', 'base/base.py '
      'HasProperties._set'), ('per-type rules', 'basic.*.validate, assert_valid')])
prop('C10', 'A refused change leaves everything as it was',
     '''An assignment, deletion, container mutation or validator veto that is
     refused leaves every stored value as it was and tells no observer. A
     constructor call reports every refused argument, in order, and the owner's
     error hook runs once per refusal.''',
     ['inputs', 'histories'],
     '''symbolic old and new values, refused through attribute, constructor,
     item mutation or validator; constructors with up to 3 arguments of which
     any subset is bad''',
     '''Tests check that an error is raised, rarely that nothing else
     happened, and never over all combinations of bad arguments.''',
     [BASE, B, CONT], [('atomic set', 'base.HasProperties._set'),
                       ('error collection', 'base.HasProperties.__init__, '
                        'basic.Property.error'),
                       ('container mutation', 'containers.properties_mutator')])
prop('C11', 'Listeners are told of every change, in order, with the right values',
     '''Every assignment or deletion of a property calls its validators before
     and its observers after the change, each exactly once, in registration
     order, with the previous and new value; change-only observers are told
     only when the value differs under the property's own equality. Listeners
     of other properties or objects hear nothing.''',
     ['histories', 'inputs', 'configurations'],
     '''histories of up to 3 (4 thorough) symbolic assignments and deletions
     with up to three listeners of any mode, class-declared or added''',
     '''The claim relates each notification to the whole history and to the
     equality of arbitrary values.''',
     [HAND, BASE], [('dispatch', 'base.HasProperties._notify'),
                    ('registration', 'handlers.observer, validator, '
                     '_set_listener')])
prop('C12', 'Silenced listeners come back exactly when their context ends',
     '''Inside a context that disables listeners exactly the chosen kinds are
     silent, values are still validated, and leaving the context, normally or
     by an error, restores what was in force before. Contexts nest, and one
     context object may be entered again.''',
     ['schedules', 'histories', 'configurations'],
     '''up to 2 (3 thorough) nested contexts of seven kinds with reuse, exits
     at any point, a symbolic assignment at every point''',
     '''State restoration is a property of every nesting and exit order, and a
     test only uses one.''',
     [HAND], [('contexts', 'handlers.listeners_disabled')],
     state=[('_quarantine', 'listener kinds currently silent',
             'handlers.listeners_disabled')])
prop('C13', 'Observed containers act as plain ones and report every mutation',
     '''A container held under observation gives the same contents, results and
     errors as a plain list, set or dictionary under every method and operator;
     each successful mutation is exactly one notified assignment of a new
     container, and a failed one changes nothing and tells nobody. Replaced
     containers and copies act on no owner; the one held stays observed.''',
     ['histories', 'inputs'],
     '''lists, sets and dictionaries of up to 2 symbolic elements, all mutating
     methods, operators and in-place operators with symbolic arguments,
     histories of up to 2 (3 thorough) operations''',
     '''Equivalence with plain containers must hold for every method, argument
     and history; tests try some methods once.''',
     [CONT], [('method wrapping', 'containers.properties_mutator, '
               'properties_operator'), ('observed copies',
                                        'containers.observable_copy')],
     state=[('_instance/_name', 'owner a container reports to',
             'containers.observable_copy')])
prop('C14', 'Validating an object reports exactly what is wrong with it',
     '''Validation succeeds exactly when every required property is set, every
     set value (also one altered after assignment, also inside parts) is valid
     and every class validator passes. Otherwise it raises one error listing
     every problem in order, hands the same list once to the object's error
     hook, and changes nothing.''',
     ['inputs', 'configurations', 'histories'],
     '''four properties with symbolic required/set/value states, values altered
     in place, up to three class validators with seven outcomes, nested
     objects''',
     '''Completeness over all combinations of problems; tests check one problem
     at a time.''',
     [BASE, B], [('collection of errors', 'base.HasProperties.validate, '
                  '_validate_props'), ('required and valid',
                                       'basic.Property.assert_valid')])
prop('C15', 'Recursion guards end with the call, however it ends',
     '''Validation, writing and comparison end on every graph of objects, with
     cycles or shared parts: validation covers every reachable object, writing
     refuses self references only, an object equals itself. After any error,
     even one that is not an ordinary exception, the same calls work again as
     if nothing had happened.''',
     ['histories', 'faults', 'inputs'],
     '''all link graphs of 2 (3 thorough) objects through instances and lists,
     six kinds of error at every user-supplied point of construction,
     validation, writing, reading, comparison and defaults''',
     '''The guards are per-object flags; a leak shows only after a failure at a
     particular point followed by another call.''',
     [BASE, HAND], [('flags', 'base.HasProperties.__init__, validate, '
                     'serialize, base.equal')],
     state=[('_getting_validated, _getting_serialized, _testing_equality',
             'call in progress', BASE)])
prop('C16', 'New and reset objects have the documented defaults, unshared',
     '''A property starts with the constructor argument, else the nearest class
     default in the method resolution order, else its own default, else its
     type's; defaults are coerced, silent, asked anew from callables and never
     shared between objects when they are containers. Resetting restores them;
     a default the property would refuse is refused with the declaration.''',
     ['configurations', 'inputs', 'histories'],
     '''three-level and diamond hierarchies with every kind of entry at every
     level and symbolic values; containers changed after creation''',
     '''Precedence and sharing depend on where each default is declared and
     what happened to earlier objects.''',
     [BASE, B], [('merging', 'base.PropertyMetaclass.__new__'),
                 ('instantiation', 'base.PropertyMetaclass.__call__'),
                 ('reset', 'base.HasProperties._reset')])
prop('C17', 'Inheritance of properties and listeners follows Python\'s order',
     '''A class has a property, listener or class validator of a name exactly
     when the nearest definition of that name in its method resolution order is
     one, and then uses that definition, once. Listeners may only name
     assignable properties of the class.''',
     ['configurations', 'inputs'],
     '''chains, diamonds, crossed hierarchies and plain mixins where every
     class symbolically declares nothing, a property, a calculated property or
     something else under the name''',
     '''The claim ranges over hierarchies; tests use two or three.''',
     [BASE, HAND], [('merging', 'base.build_from_bases')])
prop('C18', 'Calculated and read-only properties cannot be given values',
     '''Reading a calculated property asks its function once and gives the
     validated result; it is never stored, written or read from stored data,
     and only an explicit setter or deleter changes anything, receiving the
     validated value. A read-only property keeps the value it was created with
     and refuses every other route.''',
     ['inputs', 'histories'],
     '''calculated properties of six kinds over symbolic results of any kind,
     read-only properties with symbolic defaults, and every access, argument,
     default and stored-data route''',
     '''Tests read one calculated value; the claim covers every result and
     every route by which a value could get in.''',
     [BASE, B], [('dynamic properties', 'basic.DynamicProperty'),
                 ('read-only properties', 'basic.GettableProperty, Uuid')])
prop('C19', 'Written objects are JSON and read back equal',
     '''Writing an object gives JSON holding exactly the values that are set,
     the same every time, without changing the object; reading that gives an
     object of the same class, equal, with equal values of the same kinds,
     that writes the same again. Custom writers and readers are asked once per
     value with the options they accept. Nothing is written for None.''',
     ['inputs', 'configurations'],
     '''one property of each kind with a symbolic value, containers of up to 2
     elements nested twice, instances nested twice, unions, custom writers,
     every combination of writing options''',
     '''Round trip identity is a claim over all values and nestings; tests try
     one object per type.''',
     [BASE, B, CONT, INST, UNION], [('writing', 'base.HasProperties.serialize, '
                                     'basic.Property.serialize, to_json'),
                                    ('reading', 'base.HasProperties.'
                                     'deserialize, from_json')],
     note='text in a union that an earlier alternative can parse is a known '
          'finding')
prop('C20', 'Stored data decides nothing it is not trusted with',
     '''Reading constructs the declared class, or the registered class the data
     names only if trusted; strict reading refuses other names and unknown
     keys at every depth. A read object holds acceptable values only; with
     validity asserted it is valid. Reading runs no listeners, leaves the data
     unchanged, and a union takes the named alternative or the first that reads
     it.''',
     ['inputs', 'configurations'],
     '''stored data of up to three nested objects in every kind of place, every
     kind of class name, symbolic values, every combination of options''',
     '''The claim is about every document, including hostile ones; tests read
     documents the library wrote.''',
     [BASE, INST, UNION, CONT], [('class selection', 'base.HasProperties.'
                                  '_deserialize_class'),
                                 ('reading', 'base.HasProperties.deserialize'),
                                 ('alternatives', 'union.Union.deserialize')])
prop('C21', 'Objects are equal exactly when class and values are',
     '''Two objects are equal exactly when they are of the same class and every
     value, unset and calculated ones included, is equal as its property sees
     it: floats within the tolerance, containers by content, parts the same
     way. The verdict is the same in both directions, an object equals itself,
     and comparing changes nothing.''',
     ['inputs', 'configurations'],
     '''pairs of symbolic values of each kind, containers of up to 2 elements,
     nested parts, unions, every link graph of 3 (4 thorough) objects''',
     '''Symmetry and agreement with the values are claims over pairs; tests
     compare a few.''',
     [BASE, B, CONT, INST, UNION], [('object equality', 'base.equal'),
                                    ('value equality', 'Property.equal and '
                                     'overrides')])
prop('C22', 'Copies share nothing with the original',
     '''A copy is an equal object of the same class, parts included, made
     without telling anyone and without changing the original. No container or
     part is shared: changing anything reachable from one never changes the
     other, and observed containers report to the object they are in.''',
     ['inputs', 'configurations', 'histories'],
     '''objects with every kind of container and part, symbolic values and
     shared parts; every mutation of either side''',
     '''Independence is a claim about every later change to either object.''',
     [BASE, CONT, INST], [('copy', 'base.copy'),
                          ('observed copies', 'containers.observable_copy')])
prop('C23', 'Identified objects are written flat, read back whole, and unique',
     '''Every graph of identified objects, cycles and shared parts included, is
     written as one entry per object with references by id, and is read back
     as the same graph. The register always holds exactly the objects in use,
     each under its current id; an id in use is refused, failures keep no id,
     and pointers accept exactly objects of the class or valid ids.''',
     ['inputs', 'histories', 'configurations', 'faults'],
     '''every link graph of 3 (4 thorough) objects, parts in every kind of
     place, histories of 3 (4) creations, renamings and deletions over two
     names, eight faults of stored data, pointers''',
     '''Round trips of graphs and the register are claims over all graphs and
     histories; tests try a chain and a self reference.''',
     [UID], [('flat writing and reading', 'extras.uid.HasUID.serialize, '
              'deserialize'), ('register', 'HasUID._ensure_unique, '
                               '_update_instances'),
             ('pointers', 'extras.uid.Pointer.validate')],
     state=[('_INSTANCES', 'objects in use by id', UID)])
prop('C24', 'Linked properties follow each other while the link is on',
     '''After every assignment to a linked source that is a change (or any,
     if asked), each target whose link is on holds the transformed value;
     two-way links keep all items in step. Loops end, nothing happens while
     unlinked or disabled, a refused value or failing transform leaves the
     link working, and an impossible link is refused and links nothing.''',
     ['histories', 'inputs', 'configurations'],
     '''histories of 2 (3 thorough) symbolic assignments, unlinkings,
     relinkings and disabled blocks over sets of 2 (3) one-way links of 3
     properties, loops of 3 links, two-way links of 2 and 3 items, traits
     included''',
     '''Which links fire depends on the whole history; tests assign once.''',
     [LINK, HAND], [('updating', 'link.directional_link._update'),
                    ('two-way links', 'link.link')],
     state=[('_unlinked, _updating', 'state of a link', LINK)])
prop('C25', 'A task runs on valid input only and returns valid output only',
     '''Calling a task makes and validates its input from the arguments, runs
     once on exactly that input, validates the output and processes it once;
     the first failure at any stage ends the call with that failure and no
     later stage happens. Anything but a valid output object is refused, calls
     leave nothing behind for later ones, and a status report is one line with
     the rounded percentage or is refused if invalid.''',
     ['inputs', 'faults', 'histories'],
     '''tasks with symbolic inputs, outputs and validators, failing at any
     stage in any way; status reports with any progress and message; two calls
     of one task''',
     '''The order of stages under every combination of failures is a claim
     over all faults; tests try one failing run.''',
     [TASK], [('stages', 'extras.task.BaseTask.__call__'),
              ('status', 'extras.task.BaseTask.report_status')])
prop('C26', 'A renamed property is the new one under its old name',
     '''Reading, setting or deleting through the old name, passing it to the
     constructor, giving a class default or stored data under it does exactly
     what the new name does, with a warning unless turned off. Values are kept
     and written under the new name only, and validity, equality and copies
     are those of a class without the renaming.''',
     ['inputs', 'configurations'],
     '''renamed properties of nine kinds, with and without warnings, directly,
     through a second renaming, overridden and inherited; symbolic values of
     any kind through every route''',
     '''Equivalence of two names is a claim over every value, type and
     route.''',
     [B, BASE], [('redirection', 'basic.Renamed.get_property'),
                 ('storage', 'base.HasProperties.serialize, deserialize')])
prop('C27', 'A singleton exists once per name and register',
     '''Creating, coercing, reading or copying a singleton whose name is in
     use in its class's register gives the object in use, unchanged;
     otherwise exactly one new object is made and kept under that name for
     life, whatever its name property becomes. Failed creations and readings
     keep nothing and tell nobody, and stored data is left unchanged.''',
     ['histories', 'inputs', 'configurations', 'faults'],
     '''histories of 3 (4 thorough) creations, readings and renamings over two
     names and up to four classes in two registers with symbolic values, with
     and without a name property; stored data with nine faults''',
     '''Identity over time is a claim about every history of the register.''',
     [SING], [('register', 'extras.singleton.SingletonMetaclass.__call__'),
              ('reading', 'extras.singleton.Singleton.deserialize')],
     state=[('_SINGLETONS', 'objects in use by name', SING)])
prop('C28', 'Arrays hold exactly the allowed shapes and kinds of numbers',
     '''An array is accepted exactly when it is a list, tuple or array whose
     shape and kind of number are allowed; anything else is refused with a
     validation error and nothing is stored. The stored array is an own copy
     with the same shape, kind and values (the given one with coercion off).
     Written as JSON and read back it has the same shape and values, nan and
     infinities included, and equality is that of shape and values.''',
     ['inputs', 'configurations'],
     '''arrays of up to 3 dimensions and 4 elements, each a symbolic integer,
     float, nan, infinity, boolean or complex number, against nine kinds and
     eight shapes''',
     '''Every element value, nesting and mix of kinds; tests use a few fixed
     arrays.''',
     [MATH], [('acceptance', 'math.Array.validate'),
              ('storage', 'math.Array.to_json, deserialize'),
              ('comparison', 'math.Array.equal')],
     note='numbers within numpy tolerance count as equal')
prop('C29', 'Vectors have the right components, names and length',
     '''A vector is stored as floats with exactly its components; a named
     direction in any case means that direction and others are refused, in
     arrays of vectors too, and the given list stays as it was. With a length
     set, what is stored has that length and the same direction, and a zero
     vector is refused. Vectors are read back equal, and anything else is
     refused with a validation error.''',
     ['inputs', 'configurations'],
     '''vectors of 2 and 3 symbolic components, arrays of 1 and 2 (3) vectors,
     symbolic names of directions, lengths from 1/1000 to 1024; scaled
     components as real numbers''',
     '''Length and direction are claims over all real components; tests scale
     one vector.''',
     [MATH], [('scaling', 'math.BaseVector.validate'),
              ('names', 'math.Vector3.validate, Vector3Array.validate')],
     note='relative tolerance 1e-9; rounding of scaled components is not '
          'modelled')
prop('C30', 'Files are open and in a valid mode, images are complete copies',
     '''A file is accepted exactly when it is open, file-like and in a valid
     mode; a name is opened once in the mode given, and whatever cannot be
     opened or is not a file is refused with a validation error and stores
     nothing. Deletion closes the file unless it is refused. An image is kept
     as an own stream with all of its data under the given name, written and
     read back completely wherever reading stopped before.''',
     ['inputs', 'configurations', 'faults'],
     '''stand-in files with every combination of attributes, modes and errors of
     opening, symbolic names and modes; images from four positions and five
     kinds of source''',
     '''Every mode, attribute and failure of opening; tests open a few
     files.''',
     [B, IMG], [('acceptance', 'basic.File.validate'),
                ('deletion', 'basic.File.get_property'),
                ('images', 'images.ImagePNG.validate, to_json')],
     note='the file system is a stand-in; PNG parsing is trusted to pypng')
prop('C31', 'A property is declared exactly when its options make sense',
     '''Declaring a property, or setting an option later, succeeds exactly when
     every option is known and of its documented kind, limits are in order, the
     default is a value the property accepts and element properties, classes
     and functions are fit; anything else is refused with an ordinary error and
     a refused option keeps its value. Options read back as given whatever
     their order, tags are merged, and the terms declare an equal property.''',
     ['configurations', 'inputs'],
     '''every option of every property type with one symbolic value of any
     kind; limits and defaults as symbolic numbers in every order of writing''',
     '''Declarations are checked for every value and order of options; tests
     declare a few wrong ones.''',
     [B, CONT, UNION, INST, MATH], [
         ('options', 'basic.GettableProperty.__init__ and option setters'),
         ('calculated', 'basic.DynamicProperty.setter, deleter')])
prop('C32', 'Errors say what was refused, where and why, and are told once',
     '''The error of a refused value names the kind and name of the property, the
     class of the object, what is allowed and the value, shortened if long, and
     carries one report of message, reason, name and object. The owner's error
     hook gets it exactly once, also for values in containers and unions, and
     never for accepted ones. Errors are made from fit parts only, and take
     over the reports of others in order.''',
     ['inputs', 'configurations'],
     '''one refused value of every property type, alone or inside containers,
     unions and parts; texts up to 300 characters; error parts of any kind''',
     '''Who is told how often is a claim over every nesting of properties;
     tests look at single messages.''',
     [UTIL, B, UNION, CONT, MATH], [
         ('message', 'basic.GettableProperty.error, math.Array.error'),
         ('report', 'utils.ValidationError')])
prop('C33', 'The documentation of a class lists its properties',
     '''The docstring of a class is its own text followed by every public
     property exactly once, in the group of required, optional, other or (on
     demand) private ones, sorted by name or in the order asked for, with name,
     kind, description and default. An order must list every documented name
     once; it is inherited while it stays complete.''',
     ['configurations'],
     '''classes of up to five properties over three generations and two
     parents, with every order of up to four names and wrong ones''',
     '''Order, grouping and inheritance interact; tests look at one class.''',
     [BASE, B], [('docstring', 'base.PropertyMetaclass.__new__'),
                 ('entries', 'basic.Property.sphinx')])
prop('C34', 'Dictionaries split by properties, and stopped recursion',
     '''Splitting a dictionary by the properties of a class or object puts each
     pair on exactly one side, values and order kept and the input unchanged. A
     method that stops recursion runs once per object on the way, gives the
     alternative (value, result or error) when entered again, and can be called
     again after it ended in any way.''',
     ['inputs', 'histories', 'faults'],
     '''dictionaries of up to three keys over thirteen kinds of names; calls on
     every graph of three objects with up to four references, failing at any
     object''',
     '''A claim over every dictionary and every call graph; tests use two
     examples.''',
     [UTIL], [('split', 'utils.filter_props'),
              ('recursion', 'utils.stop_recursion_with')])
prop('C35', 'A property type made by the user is used everywhere as declared',
     '''Where a user-made property type is used (directly, as element, key,
     value, alternative, calculated, renamed, inside parts), values are
     accepted and coerced exactly by its rule, asked with the owner, written
     and read by its own functions with the options of the call, compared by
     its equality, and start with its default.''',
     ['inputs', 'configurations'],
     '''a type with symbolic limit, tolerance and default in nine places with
     symbolic integers''',
     '''The rule of the type is symbolic, so the claim holds for a family of
     types; tests use built-in ones.''',
     [B, BASE, CONT, UNION], [
         ('validation', 'basic.Property.get_property, containers.*.validate'),
         ('writing', 'basic.GettableProperty.serialize, deserialize')])
