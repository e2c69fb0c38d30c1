T['C12'] = T['C13'] = T['C15'] = (MBT + '; ' + MC + ' of the object machine', 'The object machine (three objects side by side, every public vector access, saves, bare and full copies, user changes, loads) is explored '
  'exhaustively to a bounded depth for a small type, and its random behaviours over 12 system and 7 component types are replayed with every field of every object compared after every operation, '
  'exactly (values are small integers). Trusts the Quint simulator and the harness (public API only). Bounded by the declared types and the number of behaviours.')
T['C14'] = (MBT + '; ' + MC + ' of the container', 'The container is specified as columns and as a list of records; TLC shows the two agree on all containers of up to three records, and behaviours over 12 record types '
  'are replayed with every column compared after every operation, exactly; containers of up to 150 000 rows are specified as runs of equal rows. Bounded by the record types and behaviours.')

T['C19'] = (MBT, 'Objects are identities in the store machine; the library is given concrete ones of 34 types (random with extreme finite values, walked by every method, interrupted), and every object read back from text, bytes '
  'or file is compared field by field and in its serialized forms, JSON text is also read exactly and compared. The one-ulp loss of serde_json is a known finding, recognised by its exact arithmetic. Also the serialization steps '
  'of the object and container machines. Bounded by the generated objects and behaviours.')
T['C21'] = (MBT + '; ' + MC + ' of the store machine', 'The store machine (objects, files, texts, damage, full and nearly full media) is explored exhaustively for small bounds, its behaviours are replayed in a scratch directory with the whole directory '
  'compared after every operation; every path of up to four tokens is enumerated by the specification and saved to and loaded from.')
T['C25'] = ('Quint specification; calls recorded from the library checked against it (trace validation, exact arithmetic)', 'Each helper has its contract in the specification, evaluated on exact values (integers, multiples of 2^-1074) for thousands of '
  'recorded calls with extreme, denormal, adjacent and boundary inputs. Bounded by the generated inputs; a grid between ends whose distance overflows is a known finding.')
T['C23'] = ('Quint specification of the macro language; programs generated from it given to the compiler and run (model-based testing); ' + MC + ' of the editing machine', 'The specification generates programs (items, fields, roles, types, orders, attributes, '
  'own records), says which are accepted and why others are not, and what an accepted one must compute; hundreds of programs per run are compiled with and without the Python feature and the accepted ones run against it, some of them as classes seen from Python. Bounded by the generated programs (field types from a fixed list).')
T['C22'] = ('Quint specification of the Python interface; its behaviours replayed in Python on the built module and in Rust on the library (model-based testing); ' + MC + ' of the object machine', 'The machine (named objects, constructors positional and by keyword, '
  'class methods, fields, copies, serialization both ways, walks, refused calls) is explored exhaustively for a small instance; in replays every readable attribute of every object is compared after every operation, bit for bit, and results of walks are those of the library called from Rust; histories of tens of thousands of rows pass through Python too. Bounded by the generated behaviours; trusts CPython.')
