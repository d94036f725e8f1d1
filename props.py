"""The properties, as written to properties.jsonl and MANIFEST.json by gen.py"""

TECHNIQUE = ('static analysis of the clang syntax tree: path-insensitive abstract interpretation to gated value '
             'terms with closed forms for loops, compared with the specified term')
NOTES = ('Every check parses /repo\'s current sources with clang (syntax only) and decides from the typed syntax tree. '
         'A violation is reported only where the computed value term differs from the specified one for an exhibited '
         'valuation, or a forbidden construct is reachable; obligations the analysis cannot decide stay quiet and are '
         'listed as undecided in the evidence file.')


def P(id, title, statement, over, text, why, files, mechanism, observe=None, **k):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}}
    if observe:
        d['anchors']['observe_at'] = observe
    d.update(k)
    return d


MH = 'src/libcatnip/matrix.hpp'
MC = 'src/libcatnip/matrix.cpp'
QC = 'src/libcatnip/qc_functions.cpp'
IO = 'src/libcatnip/io/'
TRUST = ('Trusted: clang\'s parse, the modelled subset of C++ and the standard library in sa/lib.py, mathematical '
         'integers and reals for int and double (no overflow, no rounding). ')
UNDEC = ('Obligations left undecided on a changed tree are reported in the evidence and do not raise an alarm. ')

PROPS = [
    P('C01', 'Matrix element accesses stay inside the matrix storage',
      'For every matrix with at least one row, column and shelf, no public matrix operation reads or writes outside the '
      'storage of the matrices involved, whatever indices and values it is given. Element, row and column accessors and '
      'setters accept exactly the one-based positions that exist in the matrix (and vectors whose length matches the row '
      'or column) and refuse every other position by reporting an error before anything is touched.',
      ['inputs'], 'all matrix dimensions of at least one, all index and length arguments, all contents',
      'Unit tests use a few fixed dimensions and indices; the bounds must hold for every dimension and index, and '
      'an access just outside heap storage usually goes unnoticed.',
      [MC, MH], [('index computation and range checks', MC), ('storage (re)allocation in the constructors and resizing', MC)],
      ['element accessors and setters, row and column accessors, every matrix operation'],
      level_note='Every array access reachable from a public matrix operation is an obligation index in [0, allocated length), proved for '
                 'symbolic dimensions; refusal conditions are compared with the specified condition in both directions. ' + TRUST + UNDEC),
    P('C02', 'Matrix copies are independent and storage is owned exactly once',
      'A matrix produced by copying, assignment or any operation returning a matrix by value has contents of its own: changing or destroying either '
      'matrix never changes the other. Along every sequence of construction, copy, assignment, resizing and destruction each '
      'block of storage has exactly one owner, is released exactly once in the form it was allocated, and is never used after release.',
      ['inputs', 'histories'], 'all matrix dimensions of at least one, every copy, assignment (including to itself), mutation and destruction',
      'Aliasing and double release only show under particular sequences of copies, mutations and destruction; tests do not '
      'look at storage and a double free or leak may stay silent.',
      [MC, MH], [('copy construction, assignment, destruction', MC), ('storage replacement on resizing', MC)],
      ['element accessors of both matrices after a mutation; release of storage'],
      level_note='The heap is modelled with symbolic allocation sites; each release and each access checks the live/owned typestate, and each '
                 'mutator is applied to one copy and the other compared by value. ' + TRUST + UNDEC),
    P('C03', 'Matrix elements read back exactly what was stored',
      'Reading an element of a matrix returns the value last stored at that position, and storing an element, row or column changes '
      'that element, row or column and no other element and no dimension. A matrix built from dimensions is zero everywhere, one built '
      'from a vector or from rows of equal length holds those values in order (rows of different length are refused), and a copy has the '
      'dimensions and elements of the original; accessors that omit trailing indices mean position one.',
      ['inputs'], 'all dimensions of at least one, all positions, all stored values',
      'Tests store into a few positions of small matrices; the frame condition ranges over all other positions.',
      [MC, MH], [('index computation', MC), ('constructors', MC), ('element/row/column setters and getters', MC)],
      ['element accessor at an arbitrary position'],
      level_note='Element value at an arbitrary symbolic position after the operation is compared with the specified value. ' + TRUST + UNDEC),
    P('C04', 'Changing matrix dimensions keeps the overlap and fills new places with zero',
      'Changing the number of rows, columns or shelves, or resizing, gives the matrix exactly the requested dimensions; every element whose position '
      'exists before and after keeps its value and every new position holds zero. A negative number of rows or columns, fewer than one shelf, and resizing to fewer than one row or column are refused with an error.',
      ['inputs'], 'all old and new dimensions of at least one, all contents',
      'Tests grow or shrink a couple of small matrices; strides change with every dimension, so the element map must hold for all pairs of sizes.',
      [MC], [('dimension setters and resize', MC)], ['dimensions and element accessor at an arbitrary position'],
      level_note='Element value at an arbitrary symbolic position compared with the specified value, for symbolic old and new sizes. ' + TRUST + UNDEC),
    P('C05', 'Row and column swaps and moves are exact permutations',
      'Swapping two rows (or columns) exchanges exactly these two and leaves all others in place; moving a row (or column) to another position '
      'puts it there and shifts the ones in between by one towards the vacated place, leaving the rest alone. Neither changes the dimensions, and two different positions of which one is outside '
      'the matrix are refused with an error.',
      ['inputs'], 'all dimensions of at least one, all pairs of positions (equal, ascending, descending), all contents of a single-shelf matrix',
      'Tests check single swaps of small matrices; direction, distance and shape combine to unbounded cases.',
      [MC], [('row and column swap and move', MC)], ['element accessor at an arbitrary position'],
      level_note='Element value at an arbitrary symbolic position compared with the permuted original. ' + TRUST + UNDEC),
    P('C06', 'Transpose, concatenation, diagonal, product and extraction are exact',
      'The transpose, the row- and column-wise concatenation (first operand above or left of the second), the diagonal matrix of a row or column vector, the matrix '
      'product and the extraction of one row or column have the mathematically specified dimensions and elements, and transposing, concatenating, extracting or building a diagonal leaves the operands '
      'as they were. The product of matrices whose inner dimensions differ, and the diagonal of something that is not a vector, are refused.',
      ['inputs'], 'all operand dimensions of at least one and all contents',
      'Tests multiply and concatenate a few small literal matrices; shape-dependent strides and mixed-up indices survive square examples.',
      [MC], [('matrix algebra', MC)], ['dimensions and element accessor of the result at an arbitrary position'],
      level_note='Result element at an arbitrary symbolic position compared with the specified expression (a bounded sum for the product). ' + TRUST +
                 'The product is taken over the reals; element-wise floating-point rounding is outside the model. ' + UNDEC),
    P('C07', 'Row and column matching reports the equal counterpart or nothing',
      'Matching the rows (or columns) of one matrix against another to a number of decimals yields one entry per own row: the position of '
      'the row in the other matrix whose elements all print the same after rounding to that many decimals (the last such row if there are several), and -1 exactly when there is none. Neither matrix is changed.',
      ['inputs'], 'all matrices of equal width (height) with at least one row and column, all contents, 0 to 6 decimals, single-shelf matrices',
      'Tests match a few hand-written matrices in which every row has a partner; missing and repeated rows and partial agreement are not sampled.',
      [MC], [('row and column matching', MC)], ['returned vector at an arbitrary position'],
      level_note='Entry at an arbitrary symbolic position compared with the specified last-match expression; conversion of numbers to fixed-precision text is an uninterpreted function. ' + TRUST + UNDEC),
    P('C08', 'The transfer integral follows the projective formula',
      'The computed coupling is J_eff = (J_ab - (e_a + e_b) S_ab / 2) / (1 - S_ab^2), where gamma_A and gamma_B are the monomer orbitals (as given with counterpoise, '
      'otherwise padded with zeros: first monomer first, second monomer last) times the overlap times the dimer orbitals, S_ab = gamma_B.gamma_A, and J_ab, e_a, e_b '
      'are the dimer orbital energies weighted by gamma_B gamma_A, gamma_A gamma_A and gamma_B gamma_B. The values printed under the labels J_ab, e_a, e_b and J_eff are these numbers in electronvolt, S_ab is printed as it is. '
      'Matrices whose sizes do not fit together are refused with an error instead of giving a number.',
      ['inputs'], 'all numbers of basis functions and orbitals, all coefficient, overlap and energy values, with and without counterpoise',
      'Tests compare a few stored calculations; a change of index, padding or a swapped quantity may cancel in symmetric examples.',
      [QC, 'src/libcatnip/qc_functions.hpp', 'src/libcatnip/constants.hpp', MC], [('calculation of the transfer integral', QC), ('matrix product, transpose, diagonal', MC)],
      ['returned value and standard output of the transfer integral calculation'],
      level_note='The result term (nested sums over symbolic ranges) is compared with the specified one for symbolic sizes. ' + TRUST + UNDEC),
    P('C09', 'Orbital selection picks exactly the named orbital of each monomer or refuses',
      'For each monomer separately, HOMO with offset k <= 0 selects the coefficient row HOMO+k and LUMO with offset k >= 0 selects the row HOMO+1+k, and the coupling is calculated from these rows. '
      'An orbital type other than HOMO or LUMO, a missing entry for a monomer, a positive HOMO offset, a negative LUMO offset and an orbital below the first or above the last of that monomer are refused with an error; everything else is accepted.',
      ['inputs'], 'all numbers of orbitals and HOMO positions of both monomers, all orbital types and offsets',
      'Tests use HOMO and LUMO of a few molecules with equal monomers; boundaries and unequal monomers are not sampled.',
      [QC, 'src/libcatnip/qc_functions.hpp'], [('orbital selection in the coupling calculation', QC)],
      ['returned value or error of the coupling calculation'],
      level_note='The construction and the coupling calculation are summarised together for symbolic orbital maps and compared per combination of types. ' + TRUST + UNDEC),
    P('C10', 'Bad sizes are refused; unscrambling reorders each matrix by its own match',
      'Constructing a transfer complex refuses an overlap matrix whose size differs from the number of dimer basis functions, with counterpoise monomers whose number of basis functions differs from the '
      'dimer, and otherwise monomers with more basis functions together than the dimer; everything else is accepted. Unscrambling with counterpoise reorders the second monomer\'s coefficients by the match of the first monomer\'s atoms with the second\'s (and the second\'s basis function counts), and '
      'the dimer coefficients and overlap by the match of the first monomer with the dimer; without counterpoise it reorders the dimer coefficients and the overlap by the matches of the first and of the second monomer with the dimer, in that order. Nothing else the complex holds is replaced, and every match uses one precision between two and six decimals.',
      ['inputs'], 'all matrix sizes, all coordinates and basis function counts, with and without counterpoise',
      'Tests unscramble dimers whose atoms are in order or swapped as a whole; a mixed-up match or a matrix left behind shows only for particular atom orders.',
      [QC, 'src/libcatnip/qc_functions.hpp'], [('construction of the transfer complex', QC), ('unscrambling', QC)],
      ['error of the constructor; matrices used by the coupling calculation after unscrambling'],
      level_note='Refusal conditions are compared both ways; matching and block reordering are uninterpreted functions in the data flow of unscrambling, so what the reordering functions themselves do is outside this property. ' + TRUST + UNDEC),
    P('C11', 'Option values are accepted exactly inside their limits',
      'An integer or real option value is refused exactly when it lies below MIN or above MAX, a string exactly when it is shorter than MIN_LENGTH or longer than MAX_LENGTH, '
      'a string with an enforced set of choices exactly when it is none of them (not enforced, everything is accepted), and a switch value exactly when it is none of ON, TRUE, 1, OFF, FALSE, 0 '
      '(the first three mean on, the others off; numbers are accepted from 0 to 1). STRING_CHOICE_ENFORCED itself takes true or false only. The limits are those last set; limits never set accept every value, and arguments built from these rules accept exactly the same values.',
      ['inputs'], 'all limits, all values, all sets of one to three choices',
      'Tests try one value on each side of one pair of limits; the boundary, default limits, empty values and passing through the argument layer are sampled thinly.',
      [IO + 'arguments/properties/', IO + 'arguments/'], [('value rules', IO + 'arguments/properties/'), ('arguments that combine rules', IO + 'arguments/argumentobject.hpp')],
      ['propValid, argValid and the option setters'],
      level_note='Refusal conditions are compared with the specified condition in both directions for symbolic limits and values. ' + TRUST + UNDEC),
    P('C12', 'File rules judge by extension and existence and derive companion files',
      'With allowed extensions configured, a file name is accepted exactly when one of them begins with a star or equals the text from the last dot of the last path component (nothing if that component has no dot). '
      'A file that must exist is refused exactly when it does not; whether the latest file exists is recorded, and the closing check refuses exactly when a file must exist and the latest one does not (or none was given). '
      'For each configured companion extension, in order, the companion name is the last path component with the text from its last dot replaced by that extension, its path is everything up to the last slash, and it is reported existing exactly when that file exists; '
      'companion extensions that are neither empty nor of the form of a dot followed by text without a dot are refused, and derived options cannot be set from outside.',
      ['inputs', 'configurations'], 'all paths, all sets of one to three extensions, every file system state',
      'Tests use names with one dot and no directory; dots in directories, missing dots, several companions and repeated checks are not sampled.',
      [IO + 'arguments/properties/', IO + 'arguments/argumentfile.cpp', 'src/libcatnip/string_support.cpp'],
      [('extension rule', IO + 'arguments/properties/propertyfileext.cpp'), ('existence rule', IO + 'arguments/properties/propertyfileexist.cpp'), ('companion files', IO + 'arguments/properties/propertysisterfile.cpp')],
      ['propValid, postCheck, getPropOption and argValid'],
      level_note='Acceptance and derived names are compared as terms over substring, last separator and an uninterpreted existence predicate. ' + TRUST + UNDEC),
    P('C13', 'Options are known by name; setting one changes only that one',
      'Every value rule has a fixed name and list of options. Setting or reading an option succeeds exactly for the names the rule knows and is refused with an error for every other name; a set option reads back as set and all other options of the rule stay as they were. '
      'An argument hands an option to the rule that is named and refuses a rule or option it does not have, and values read through the argument are those of that rule.',
      ['inputs', 'histories'], 'all rules and arguments, all option and rule names, all values',
      'Tests set the known names; unknown names, mixed-up options and every combination of argument and rule are not sampled.',
      [IO + 'arguments/argumentobject.hpp', IO + 'arguments/properties/propertyobject.hpp', IO + 'arguments/properties/'],
      [('options of a rule', IO + 'arguments/properties/propertyobject.hpp'), ('options through the argument', IO + 'arguments/argumentobject.hpp')],
      ['setPropOption, getPropOption, setArgPropertyOpt, getPropertyValues, getProperties'],
      level_note='Option and rule names are symbolic strings; acceptance and every option read afterwards are compared with a table. ' + TRUST + UNDEC),
    P('C14', 'Every command line flag takes its own values and changes nothing else',
      'A documented flag, in its long or short spelling, accepts exactly the values of its kind (an .orb, .pun or .7 file, a .log file, Alpha or Beta, HOMO or LUMO, an integer, a switch value), stores the value under itself and leaves every other flag at its default '
      '(Alpha, HOMO, 0, counterpoise off). A missing value is refused, except that the counterpoise flag without one means on; an unknown flag anywhere on the line is refused, a flag that was not given and has no default cannot be read, and of a repeated flag the last value counts.',
      ['inputs'], 'all flags and spellings, all values, pairs of flags in any order and all flags at once',
      'Tests parse a few literal command lines; spellings, values and combinations of flags range over far more.',
      [IO + 'io.cpp', IO + 'argumentparser.cpp', IO + 'argumentparser.hpp'], [('set-up of the flags', IO + 'io.cpp'), ('parsing', IO + 'argumentparser.cpp')],
      ['parse, getStr, getInt'],
      level_note='The parser is prepared as the program does it, then a command line of constant flags and symbolic values is interpreted; refusal and every flag read afterwards are compared with the documented table. Conversion of text to integer is an uninterpreted function. ' + TRUST + UNDEC),
    P('C15', 'Calculation settings come from their own flag or a companion file',
      'For each of the dimer and the two monomers, the coefficient and log file of the calculation are the ones named by that unit\'s flag if they exist; otherwise the companion beside the other file of the same unit that exists is used (a .log beside a coefficient file; .orb, .7 or .pun beside a log file), and if neither is there the settings are refused. '
      'Spins, orbital types, orbital numbers and counterpoise are those of their own flag. '
      'A HOMO level above zero or a LUMO level below zero is refused, and nothing else is.',
      ['inputs', 'configurations'], 'all paths without blanks that have an extension, all extensions, every combination of given, missing and companion files considered per unit, all settings',
      'Tests never build the settings of a calculation; which file stands in for which depends on the file system and on the flags given.',
      [IO + 'io.cpp', IO + 'argumentparser.cpp', IO + 'arguments/properties/propertysisterfile.cpp', IO + 'arguments/argumentfile.cpp', 'src/libcatnip/parameters.hpp'],
      [('assembling the parameters', IO + 'io.cpp'), ('companion files', IO + 'arguments/properties/propertysisterfile.cpp')],
      ['prepareParameters and the getters of Parameters'],
      level_note='A command line with symbolic paths is interpreted up to the parameters; the file system is an uninterpreted existence predicate fixed by each scenario (all there; one missing, with and without companion; only one kind of file given). ' + TRUST + UNDEC),
    P('C16', 'The program hands every file, spin and orbital on in its own role',
      'The run parses all arguments, and reads the coefficients of each unit from the coefficient file and for the spin set for that unit, its energies, HOMO level and geometry from its log file, and the overlap from the log file of the dimer, each only after reading that file. '
      'The transfer complex is built from these in the roles first monomer, second monomer and dimer with the counterpoise setting, is unscrambled with the geometries of the three units and the basis counts of dimer and second monomer exactly when all three logs give basis counts, and afterwards the integral is calculated for the orbital types and numbers set for the two monomers. '
      'The report names for each unit the spin, orbital and files that were used.',
      ['inputs', 'configurations'], 'all settings, all file contents as delivered by the readers, all combinations of spins and orbitals',
      'No test runs the program; an exchanged unit or spin shows only with open-shell or asymmetric inputs.',
      ['src/tools/main.cpp'],
      [('data flow of the run', 'src/tools/main.cpp')],
      ['arguments of TransferComplex and its operations, lines of the report'],
      level_note='main is interpreted with the readers, the settings and the transfer complex replaced by uninterpreted functions of file and spin. ' + TRUST + UNDEC),
    P('C17', 'Text helpers cut where they say; settings do not influence each other',
      'Each text helper returns exactly the part of its argument that its name says, for every text: the first or last n characters or all but these, the part before or after the first or last occurrence of a separator, the part after the last slash, the words between blanks, the text without blanks at the ends, and whether it consists of letters only; none fails on short or empty text. '
      'A setting of the calculation reads back as set and leaves all other settings as they were, and file settings refuse exactly names without the extension of their kind.',
      ['inputs', 'histories'], 'all texts, all counts that are not negative, all settings in any state',
      'Tests use a few words each; texts shorter than the count, without a separator or all blank are not sampled, nor are settings set in any order.',
      ['src/libcatnip/string_support.cpp', 'src/libcatnip/parameters.cpp', 'src/libcatnip/parameters.hpp'],
      [('text helpers', 'src/libcatnip/string_support.cpp'), ('settings', 'src/libcatnip/parameters.cpp')],
      ['results of the helpers; getters of Parameters after each setter'],
      level_note='Results are compared as terms over substring, length and position of a separator. ' + TRUST + UNDEC),
    P('C18', 'A coefficient file yields every coefficient where it belongs',
      'After reading a coefficient file, element (i, j) of a spin is the j-th number below the i-th orbital header of that spin, for the Alpha orbitals and for Beta orbitals that follow them, whatever the numbers are and whatever text follows; a file with one spin is a restricted one and has no coefficients of the other. '
      'A file that ends inside an orbital or does not exist is refused, and so is every name that does not end in .pun, .orb or .7, and no other name.',
      ['inputs'], 'all numbers in the fixed-width columns, over files of bounded shape: up to 12 numbers per orbital, 12 orbitals and two spins; every point at which the last orbital is cut off; all file names without blanks',
      'Tests read three fixed files; the number of orbitals, numbers on the last line, both spins, text behind the orbitals and truncation are not varied.',
      ['src/libcatnip/io/file_readers/punreader.cpp', 'src/libcatnip/io/file_readers/filereader.cpp'],
      [('coefficient file reader', 'src/libcatnip/io/file_readers/punreader.cpp'), ('section dispatch', 'src/libcatnip/io/file_readers/filereader.cpp')],
      ['PunReader::getCoefsMatrix and restrictedShell after read'],
      level_note='A file is a sequence of lines whose numbers are unknown texts of known width; the reader is interpreted over them and each matrix element is compared with the value of the text. The shapes are enumerated, the numbers are not. ' + TRUST + UNDEC),
    P('C19', 'A log file yields the latest value of every quantity, complete and in order',
      'After reading a log file the energies of each spin are exactly those of the latest block of that spin, in order and also where numbers run into each other, with as many occupied levels as occupied energies; the coordinates are columns four to six of the latest table; the overlap matrix is symmetric with the printed numbers in its lower triangle; each atom has as many basis functions as the population table lists. '
      'Files that end inside a table, lack the asked-for quantity, do not exist, or whose name does not end in .log are refused, and no others.',
      ['inputs'], 'all numbers in the tables, over files of bounded shape: up to 12 levels of a kind (30 thorough), every way negative numbers of a short line join, 16 basis functions (31), 12 atoms (60), repeated sections, every line at which a table may be cut off; all file names without blanks',
      'No test reads a log file with contents: the only one needs a file that is not in the repository.',
      ['src/libcatnip/io/file_readers/logreader.cpp', 'src/libcatnip/io/file_readers/logreader.hpp', 'src/libcatnip/io/file_readers/filereader.cpp'],
      [('log file reader', 'src/libcatnip/io/file_readers/logreader.cpp'), ('section dispatch', 'src/libcatnip/io/file_readers/filereader.cpp')],
      ['LogReader getters after read'],
      level_note='A file is a sequence of lines whose numbers are unknown texts; the reader is interpreted over them and each value it reports is compared with the value of the text at its place. The shapes are enumerated, the numbers are not. ' + TRUST + UNDEC),
    P('C20', 'Unscrambling puts every atom\'s block where its match says',
      'unscramble_Coef and unscramble_S return a new matrix of the given size in which the block of columns (for the overlap: the block of rows and columns) at position k is the block of the atom that position k is matched with, unchanged inside; each block has the width of its own atom; the matrix given is left as it was. '
      'A match that names an atom that does not exist or names one twice, or widths that do not add up to the matrix, are refused.',
      ['inputs'], 'all block widths, all numbers of rows and all matrix contents; every permutation of up to 3 atoms, as one list or split in two anywhere (4 thorough; the derangements of 4 and the overlap of 3 with widths 2 1 3 2), and matches of 2 out of 3 atoms; for the refusals all entries, 2 atoms',
      'The one test swaps a handful of atoms of one matrix; which of the successive block swaps is wrong depends on the permutation and on widths that differ.',
      [QC, 'src/libcatnip/qc_functions.hpp', 'src/libcatnip/matrix.cpp'],
      [('swap order', QC), ('block swaps', 'src/libcatnip/matrix.cpp')],
      ['unscramble_Coef', 'unscramble_S'],
      level_note='The number of atoms is enumerated because the order of swaps is a worklist algorithm on the permutation; everything else is symbolic. ' + TRUST + UNDEC),
    P('C21', 'Calculations on one complex do not influence each other',
      'Calculating a coupling changes none of the matrices the transfer complex was built from, neither their sizes nor any element; a further calculation accepts and refuses the same selections and gives the same coupling as on a fresh complex, whatever was calculated before.',
      ['inputs', 'histories'], 'all matrix sizes and contents, all pairs of selections one after the other, with and without counterpoise; by the first part the same holds for longer sequences',
      'Tests calculate once per complex; a matrix changed in place shows only in a later calculation.',
      [QC, 'src/libcatnip/qc_functions.hpp', MC], [('coupling calculation', QC), ('matrix operations used', MC)],
      ['calcJ, element accessors of the given matrices'],
      level_note='The second of two calculations with unrelated symbolic selections is compared with the formula on the original elements. ' + TRUST + UNDEC),
    P('C22', 'A parser enforces what each of its flags was set up with',
      'A parser set up by its user refuses a command line exactly when a value breaks a rule set for its flag (limits of numbers, choices, file extension, existence, switch words, a missing value) or a file that has to exist is not given; afterwards each flag reads as given, or as its default, through the getter of its kind and through no other. Options read back as set. Flags without a long name, with two long or short names or descriptions, and adding a kind twice or an unknown kind, are refused.',
      ['inputs', 'configurations'], 'all values on the command line, all limits and defaults, every kind of flag, long and short spelling, one and two flags in either order',
      'Tests try one value per rule; limits, spellings, kinds and defaults combine, and the flag map is shared by all of them.',
      [IO + 'argumentparser.cpp', IO + 'argumentparser.hpp', IO + 'arguments/', IO + 'arguments/properties/'],
      [('parser', IO + 'argumentparser.cpp'), ('flag kinds', IO + 'arguments/'), ('rules', IO + 'arguments/properties/')],
      ['parse, setFlagArgOpt, setFlagDefaultValue, addFlagArg, getters, constructor'],
      level_note='Flag names are fixed (two user-defined flags), their values, limits and defaults are symbolic. Limits of text lengths cannot be set through the parser and are left to C13. ' + TRUST + UNDEC),
    P('C90', 'The reported coupling is accurate to the precision of the input',
      'For matrices of any size and conditioning the reported transfer integral differs from the exact value of the projective formula by no more than the rounding of double arithmetic and the printed precision of the inputs allow.',
      ['inputs'], 'all matrix contents, sizes and condition numbers',
      'Tests compare with values computed by the same program on a few files.',
      [QC, MC], [('sums and products of doubles', MC), ('orthogonalisation', QC)],
      na='The error depends on the magnitudes and the conditioning of matrices read at run time (division by 1 - s^2, sums over thousands of terms); a static bound on them does not exist, and interval analysis of unbounded contents gives an infinite one. The formula itself is decided over the reals by C08.'),
    P('C91', 'Whatever Gaussian writes is read with its meaning',
      'Every file a supported Gaussian version writes for a converged calculation, with any functional, basis, charge and multiplicity, is read completely and with the meaning Gaussian gives it.',
      ['inputs'], 'all files Gaussian can write',
      'Tests read a handful of stored files.',
      [IO + 'file_readers/logreader.cpp', IO + 'file_readers/punreader.cpp'], [('layouts known to the readers', IO + 'file_readers/')],
      na='The set of files is defined by a closed program outside the repository; no source here states its grammar, so there is nothing to compare the readers with. C18 and C19 decide the readers against the layouts the documentation and the stored files show.'),
    P('C92', 'Matrices too large for their index arithmetic are refused',
      'Dimensions whose product exceeds what the index arithmetic or the memory can hold are refused with an error and never lead to storage smaller than the matrix.',
      ['inputs'], 'all dimensions up to the limits of int and of memory',
      'No test can allocate matrices of that size.',
      [MC, MH], [('product of the dimensions', MC)],
      na='Whether a product overflows depends on dimensions known at run time, and whether an allocation succeeds on the machine; the code has no bound on either that an analysis could check, so every access would be reported. The checks assume mathematical integers and say so.'),
    P('C93', 'Reading a file takes time and memory proportional to its size',
      'Reading any file and unscrambling any matrices needs time and memory bounded by a low polynomial of the number of basis functions.',
      ['inputs'], 'all file sizes and basis sizes',
      'Tests use small molecules.',
      [IO + 'file_readers/logreader.cpp', QC], [('loops over lines and atoms', IO + 'file_readers/')],
      na='The number of swaps and of lines visited depends on the contents of the files; the analysis gives values, not costs. That the readers end at the end of every enumerated shape of a file is part of C18 and C19, that the worklist of swaps ends for every permutation up to the bound is part of C20.'),
]
