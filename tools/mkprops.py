#!/usr/bin/env python3
# Writes properties.jsonl (kept as code so that it stays valid json).
import json
D='src/milo/primitive/detail/'
A='src/milo/primitive/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('P01','Every hash returns the standard digest for every message and every chunking',
 'For SHA-1, SHA-224, SHA-256, SHA-384, SHA-512, SHA-512/224 and SHA-512/256, on every backend and with run-time selection, the digest of a message equals the one FIPS 180-4 defines, whatever the length (0 bytes to beyond 2^32 bytes), the contents, the address alignment and the way the message is split over update calls, including empty ones. An object that is initialized again behaves as a new one, whatever was done with it before, also when it was abandoned half way.',
 ['inputs','histories'],'all message lengths, contents, alignments; all sequences of initialize/update/finalize/digest',
 'The tests hash a few dozen fixed messages in one or two calls; the buffer, padding and length arithmetic has a separate path for nearly every combination of buffered bytes and chunk size, and for lengths whose bit count exceeds 32 bits.',
 [D+'hash/sha/sha_1_160.h',D+'hash/sha/sha_2_256.h',D+'hash/sha/sha_2_512.h',D+'hash/sha/sha_1_160_impl_sw.h',D+'hash/sha/sha_2_256_impl_sw.h',D+'hash/sha/sha_2_512_impl_sw.h',D+'hash/sha/sha_1_160_impl_hw_x86_64.asm',D+'hash/sha/sha_2_256_impl_hw_x86_64.asm','src/milo/internal/update.h'],
 [('block buffering','src/milo/internal/update.h update_block_soak'),('padding and length block',D+'hash/sha/*.h finalize'),('block functions',D+'hash/sha/*_impl_*')],
 [('buffer and its fill','bytes not yet compressed',D+'hash/sha/*.h'),('processed bytes','message length so far',D+'hash/sha/*.h')],['digest()'])
p('P02','HMAC equals RFC 2104 for every key length, message and chunking',
 'For each of the seven hashes, the tag equals the RFC 2104 one for every key length (0 bytes, shorter than, equal to and longer than a block), every message and every split of the message over update calls. Initializing an object again, with a key of any other length, gives the same tags as a new object.',
 ['inputs','histories'],'all keys, messages, chunkings and re-initializations',
 'The tests use the RFC keys in one call each; a key of exactly one block, of one byte more, or a short key after a long one takes different paths.',
 [D+'mac/hmac/hmac.h',A+'mac/apie.h'],[('key block','hmac.h initialize'),('inner and outer hash','hmac.h finalize')],
 [('key block buffer','padded key kept for the outer hash',D+'mac/hmac/hmac.h')],['digest()'])
p('P03','Poly1305 equals RFC 8439 for every key, message and chunking',
 'The tag is ((sum of clamped-r polynomial) mod 2^130-5 + s) mod 2^128 for every key and message, including those that make the accumulator reach or pass the prime or carry through every limb, and for every split of the message. A key longer than 32 bytes is cut and a shorter one padded with zeros, as documented, and an object can be initialized again.',
 ['inputs','histories'],'all keys, messages and chunkings',
 'Wrong carries show up for about one in 2^32 random inputs; only chosen limb values reach them.',
 [D+'mac/poly/poly_1305.h',D+'mac/poly/poly_1305_impl_sw.h'],[('limb arithmetic','poly_1305_impl_sw.h process'),('final reduction','poly_1305.h finalize')],
 [('accumulator','five limbs, partially reduced',D+'mac/poly/poly_1305.h')],['digest()'])
p('P04','HKDF output is one stream, equal to RFC 5869, however it is drawn',
 'For every input key, salt and info length (0 and longer than a block included) the concatenation of what successive derive calls return is the RFC 5869 output, for every way of splitting up to 255 blocks over calls, with each hash. An object that is initialized again starts a new stream.',
 ['inputs','histories'],'all inputs; all sequences of derive sizes up to 255 blocks',
 'The tests draw each vector at once; the left-over block, the counter byte and the chaining value only interact when a call ends inside a block.',
 [D+'kdf/hkdf.h',A+'kdf/apie.h'],[('expand loop','hkdf.h derive'),('stream buffer','src/milo/internal/update.h update_block_prod')],
 [('block counter','next T(i)',D+'kdf/hkdf.h'),('buffer','last block, partly handed out',D+'kdf/hkdf.h')],['derive()'])
p('P05','PBKDF2 output is one stream, equal to RFC 8018, however it is drawn',
 'For every password, salt (empty and longer than a block included), iteration count from 1 and output length the concatenation of what successive derive calls return is the RFC 8018 output, with each hash. An object that is initialized again starts a new stream.',
 ['inputs','histories'],'all inputs; all sequences of derive sizes',
 'The tests draw each vector at once and use few salt and password lengths.',
 [D+'kdf/pbkdf_2.h',A+'kdf/apie.h'],[('block function','pbkdf_2.h derive'),('stream buffer','src/milo/internal/update.h')],
 [('block counter','next block index',D+'kdf/pbkdf_2.h'),('buffer','last block, partly handed out',D+'kdf/pbkdf_2.h')],['derive()'])
p('P06','ChaCha20 is one RFC 8439 keystream, whatever the backend and the calls',
 'For every key, initial counter, nonce and length, encryption and decryption XOR the input with the RFC 8439 keystream continued over all calls on the object, for every split, alignment and backend, in place or into another buffer, with the 32-bit block counter wrapping around; a key or iv of another size is cut or padded with zeros. Decryption undoes encryption and both return the number of bytes processed.',
 ['inputs','histories','configurations'],'all keys/ivs, lengths, chunkings, alignments, counters and backends',
 'The vector backends process 4 or 8 blocks at a time with their own tails and counter arithmetic; the tests use a few lengths in one call.',
 [D+'cipher/chacha/chacha.h',D+'cipher/chacha/chacha_impl_sw.h',D+'cipher/chacha/chacha_impl_hw_x86_64.h',D+'cipher/chacha/chacha_impl_hw_x86_64.asm','src/milo/internal/update.h'],
 [('keystream buffer','update.h update_block_prod_xor'),('block functions','chacha_impl_*')],
 [('buffer','keystream not used yet',D+'cipher/chacha/chacha.h'),('state','key, counter, nonce',D+'cipher/chacha/chacha.h')],['encrypt()','decrypt()'])
p('P07','AEAD gives the RFC 8439 ciphertext and tag for every sequence of calls',
 'For every key, nonce, additional data and text, of every length including empty ones and beyond 2^32 bytes, ciphertext and tag are those of RFC 8439, however additional data and text are split over calls, whether or not a text call is made at all, and in both directions; a key or nonce of another size is cut or padded with zeros. The detail object and the wrapper agree, and an object can be initialized again at any point.',
 ['inputs','histories'],'all inputs; all orders and splits of aad / encrypt or decrypt / digest calls',
 'Padding of the additional data and of the text, and the two length fields, depend on the call sequence; the tests make one call of each.',
 [D+'aead/chacha/chacha_20_poly_1305.h',A+'aead/apie.h'],[('padding','chacha_20_poly_1305.h aadover/finalize'),('lengths','chacha_20_poly_1305.h finalize')],
 [('sizes','additional data and text bytes so far',D+'aead/chacha/chacha_20_poly_1305.h')],['digest()','encrypt()','decrypt()'])
p('P08','AEAD verification accepts exactly the right tag and reports every forgery',
 'Decryption and verification succeed if and only if the tag has 16 bytes and equals the computed one: every single-bit (and other) change of the tag, ciphertext, additional data, nonce or key and every shortened, extended or empty tag is reported, through the error reference when one is given and by an exception otherwise, by every overload. A verification can be repeated with the same outcome.',
 ['inputs','histories'],'all tags, all single-bit corruptions of all inputs, all overloads',
 'The tests verify valid tags only; a comparison that misses one byte or accepts a prefix passes them.',
 [A+'aead/apie.h','src/milo/internal/memory.h'],[('comparison','memory.h memory_match'),('verify','aead/apie.h verify')],None,['verify()','decrypt()'])
p('P09','Base 16 codec encodes, decodes, sizes and rejects exactly',
 'Encoding gives two lower-case digits per byte; decoding accepts exactly strings of hexadecimal digits of either case, an odd-length string having a leading single digit, and returns their bytes, so decoding undoes encoding. Any other character at any place (all 256 values) is an error with no more bytes reported than were correctly decoded; the size functions give the exact size.',
 ['inputs'],'all byte strings and all candidate encodings',
 'The tests decode valid strings of even length and a few bad ones; the alphabet check is arithmetic over all 256 byte values, at two nibble places.',
 [D+'codec/base_16.h',A+'codec/apie.h'],[('digit arithmetic','base_16.h encode/decode'),('loop','base_16.h decode')],None,['encode()','decode()','*_size()'])
p('P10','Base 64 codec encodes, decodes, sizes and rejects exactly',
 'Encoding is RFC 4648 base 64 with padding; decoding accepts exactly strings whose length is a multiple of four and which consist of alphabet characters with at most two = at the very end, and returns their bytes, so decoding undoes encoding. Any other string is an error with no more bytes reported than were correctly decoded; the size functions give the exact size.',
 ['inputs'],'all byte strings and all candidate encodings',
 'Each of the 256 characters at each of four places, and each placement of padding, is a separate case.',
 [D+'codec/base_64.h',A+'codec/apie.h'],[('character arithmetic','base_64.h encode/decode'),('padding','base_64.h decode'),('size','base_64.h decode_size')],None,['encode()','decode()','*_size()'])
p('P11','All forms of an operation agree, and outputs are sized as documented',
 'Pointer, container, returned-value and one-line forms of every operation, over static, dynamic and view containers of char, signed/unsigned byte type, give the same bytes. Resizable outputs end up with exactly the size of the result, whatever their size before; fixed outputs shorter than a digest or key receive its leading bytes, and a requested size above the limit of a digest is cut to it.',
 ['inputs','configurations'],'all overloads x container kinds x prior sizes x requested sizes',
 'There are hundreds of overload and container combinations, and the tests call few of them; templates that are never instantiated are not even compiled.',
 [A+'hash/apie.h',A+'mac/apie.h',A+'kdf/apie.h',A+'cipher/apie.h',A+'aead/apie.h',A+'codec/apie.h','src/milo/internal/utility.h','src/milo/container.h','src/milo/literal.h'],
 [('wrappers','*/apie.h'),('resize','internal/utility.h resize')],None,['all wrapper functions'])
p('P12','Operations touch only the memory they are given and read no uninitialized data',
 'No call reads outside its input ranges or writes outside its output range (exactly the bytes it reports), for every size, alignment and chunking on every backend, and inputs are never modified. Zero-length inputs and outputs are never dereferenced, and no result depends on uninitialized memory or undefined behaviour.',
 ['inputs','histories'],'all sizes, alignments, chunkings and backends',
 'An access one vector too far stays unnoticed on the heap and stack buffers of the tests, and assembly is invisible to sanitizers.',
 [D+'cipher/chacha/chacha_impl_hw_x86_64.asm',D+'hash/sha/sha_1_160_impl_hw_x86_64.asm',D+'hash/sha/sha_2_256_impl_hw_x86_64.asm','src/milo/internal/memory.h','src/milo/internal/update.h',D+'codec/base_64.h'],
 [('vector loads and stores','*.asm'),('copy loops','internal/memory.h')],None,['page faults at guard pages','sanitizer reports'])
p('P13','Compile-time evaluation gives the same results as run time',
 'Every algorithm can be used in a constant expression, and for every input and call sequence the value computed by the compiler equals the one computed at run time. That includes codecs, errors, containers and re-initialization.',
 ['inputs','configurations'],'all algorithms x inputs x call sequences',
 'Constant evaluation uses other code (byte-wise loads, software backends, no hardware) which the tests run on the same few vectors.',
 ['src/milo/internal/memory.h','src/milo/internal/impl.h','src/milo/internal/endian.h','src/milo/internal/macro.h'],
 [('compile-time branches','memory.h load/stor/copy, impl.h proxy')],None,['static constexpr values'])
p('P14','Backend selection is right for every processor and never changes results',
 'For every combination of reported processor features, the backend that runs uses only instructions the processor reports and the operating system enabled, and results are the same as with software. The selection options (run-time backends, enforced backend) choose the backend they name and nothing else.',
 ['configurations'],'all combinations of cpuid maximum leaf, feature bits and os support',
 'The tests run on one processor.',
 ['src/milo/internal/arch/x86_64.h','src/milo/internal/arch/x86_64/cpuid.asm','src/milo/internal/impl.h',D+'hash/impl.h',D+'cipher/impl.h',D+'hash/sha/sha_1_160_impl_hw_x86_64.h',D+'hash/sha/sha_2_256_impl_hw_x86_64.h',D+'cipher/chacha/chacha_impl_hw_x86_64.h'],
 [('feature detection','arch/x86_64.h'),('requirements','*_impl_hw_*.h requirements'),('choice','impl.h')],
 [('feature flags','computed once before main','internal/arch/x86_64.h')],['which assembly function is entered'])
p('P15','Assembly backends obey the calling convention and leave no register damage',
 'Every assembly function, for every block count and argument alignment, preserves the callee-saved registers, stack pointer, direction flag, floating-point control state, and (Windows convention) the non-volatile vector registers, writes nothing above its frame, and leaves no dirty upper vector halves that slow or corrupt the caller. Both supported calling conventions give the same results.',
 ['inputs','configurations'],'all block counts and alignments x conventions x functions',
 'A clobbered register is invisible unless the compiler happens to keep a live value in it at that call.',
 [D+'cipher/chacha/chacha_impl_hw_x86_64.asm',D+'hash/sha/sha_1_160_impl_hw_x86_64.asm',D+'hash/sha/sha_2_256_impl_hw_x86_64.asm','src/milo/internal/arch/x86_64/abi.asm','src/milo/internal/arch/x86_64/cpuid.asm'],
 [('prologue and epilogue macros','abi.asm')],None,['registers before and after each call'])
p('P16','Secrets are erased from an object when it is destroyed',
 'After the destructor of a hash, MAC, key derivation, cipher or AEAD object, and of their wrappers, the storage of the object holds nothing that depends on keys, messages or digests, whatever was done with the object before and at every optimization level. That holds at every point of its life: after construction, half-way, after finalization and after use as a source or target of copies.',
 ['histories','configurations'],'all call histories x compilers and optimization levels',
 'Reading the storage of a destroyed object is nothing a unit test does, and dead-store elimination depends on the optimization level.',
 ['src/milo/internal/memory.h',D+'hash/sha/sha_1_160.h',D+'hash/sha/sha_2_256.h',D+'hash/sha/sha_2_512.h',D+'mac/hmac/hmac.h',D+'mac/poly/poly_1305.h',D+'kdf/hkdf.h',D+'kdf/pbkdf_2.h',D+'cipher/chacha/chacha.h'],
 [('erase','memory.h memory_erase'),('destructors','detail/*')],None,['object storage after destruction'])
p('P17','Objects are values: copies, moves and assignments are complete and independent',
 'A copy made at any point of any call sequence (by construction, assignment over any other state, move, or by container growth) continues exactly as the original would, and later operations or destruction of either do not affect the other. Self-assignment changes nothing.',
 ['histories'],'all pairs of object states x copy operations x continuations',
 'The tests never copy an object.',
 [A+'hash/apie.h',A+'mac/apie.h',A+'kdf/apie.h',A+'cipher/apie.h',A+'aead/apie.h',D+'kdf/hkdf.h',D+'kdf/pbkdf_2.h',D+'mac/hmac/hmac.h'],
 [('special members','all classes')],None,['results of original and copy'])
p('P18','Errors are reported through the channel the caller chose, and never crash',
 'An operation given an error object never throws for bad data and sets it on failure and clears it on success, whatever it held before; without one it throws the same error. A function that can throw is never declared not to, so no failure terminates the program, and an error code, once cleared or compared, behaves as documented.',
 ['inputs','histories'],'all overloads x good and bad inputs x prior error states',
 'Only some overloads are called by the tests, with fresh error objects; a wrong exception specification only shows when that overload fails.',
 ['src/milo/error.h',A+'codec/apie.h',A+'aead/apie.h'],[('exception specifications','*/apie.h'),('error class','error.h')],
 [('error code','none, codec or verification failure','src/milo/error.h')],['error value','exception type','process survival'])
p('P19','Running out of memory is reported, leaks nothing and leaves objects usable',
 'If any allocation made on behalf of a call fails, std::bad_alloc (or what the container throws) reaches the caller unchanged, nothing is leaked, and the object can still be used as documented after being initialized. Pointer and fixed-size forms make no allocation at all.',
 ['fault_sequences','inputs'],'every allocation of every overload failing, one at a time',
 'No test makes an allocation fail.',
 [A+'hash/apie.h',A+'mac/apie.h',A+'kdf/apie.h',A+'cipher/apie.h',A+'aead/apie.h',A+'codec/apie.h','src/milo/internal/utility.h'],[('resizing of outputs','internal/utility.h resize')],None,['exceptions','allocation balance'])
p('P20','Distinct objects can be used from several threads without interference',
 'Operations on different objects running in different threads give the same results under every interleaving as when run alone: there is no hidden shared mutable state in any algorithm, backend or backend selection. That includes first use, and constant objects shared for reading.',
 ['schedules'],'all interleavings of operations on distinct objects',
 'The tests are single-threaded; a static scratch buffer or table gives right results in every one of them.',
 ['src/milo/internal/impl.h','src/milo/internal/arch/x86_64.h',D+'hash/impl.h',D+'cipher/impl.h'],[('static state','all classes')],None,['results of each thread'])
p('P21','Tag verification takes the same steps wherever the tags differ',
 'The sequence of instructions and memory accesses made by verification does not depend on the contents of the computed or the supplied tag, only on their sizes. In particular it does not stop at the first difference.',
 ['inputs','configurations'],'all differing positions and values x optimization levels',
 'The outcome is the same; only the execution trace differs.',
 [A+'aead/apie.h','src/milo/internal/memory.h'],[('comparison','memory.h memory_match')],None,['instruction trace'])
p('P22','The library can be integrated in every supported way with the same results',
 'Every public header compiles on its own, several translation units can include everything and be linked, with the supported compilers (gcc, clang), language levels, optimization levels, with and without assembly, as a subdirectory or installed package; all of them give the same results. The size and alignment of objects do not depend on the translation unit.',
 ['configurations'],'compilers x language standards x optimization x assembly x integration method',
 'The tests are built in one configuration, one translation unit each.',
 ['CMakeLists.txt','src/milo/internal/config.h','src/milo/internal/compiler.h','src/milo/internal/attribute.h','src/milo/internal/option.h','doc/integration.md'],[('configuration macros','internal/config.h, compiler.h'),('install rules','CMakeLists.txt')],None,['build and program outcome'])
p('P23','A benchmark expression selects exactly the listed names it matches',
 'The list subcommand prints each available benchmark once (more of them with the advanced option, and those without it unchanged); an expression runs exactly those listed whose whole name it matches, a star standing for any sequence of characters. Only the parameters of the selected kinds are required.',
 ['inputs'],'all expressions over the alphabet of the names',
 'There is no test of the application; star matching needs backtracking that a few examples do not show.',
 ['app/include/milo/app/pattern.h','app/include/milo/app/command/benchmark.h'],[('pattern match','pattern.h pattern_match_star'),('selection','benchmark.h invoke')],None,['standard output'])
p('P24','Command line arguments are taken exactly as the documented tree says',
 'Options and parameters count only between their command and the next one, in any order; unrecognized ones, and recognized ones given too early or too late, are ignored. A missing or malformed required parameter, a missing or unknown command is reported on standard error with exit status 1, and every given value reaches the algorithm and the report unchanged.',
 ['inputs','histories'],'all argument lists over the alphabet of tokens, up to a length',
 'There is no test of the application.',
 ['app/include/milo/app/app.h','app/include/milo/app/run.h','app/include/milo/app/parameter.h','app/include/milo/app/command/benchmark.h'],[('argument cursor','app.h option/parameter/command')],
 [('cursor','first argument of the current command','app/include/milo/app/app.h')],['exit status','standard output and error'])
p('P25','Reports are well-formed JSON with metrics that follow from the measurement',
 'Standard output of a successful run is one valid JSON document (strings escaped) with one entry per selected benchmark holding its configuration and metrics. Duration per call, throughput and cycles are the measured time, the repeats, the bytes processed and the clock given, combined as documented, without overflow; warm-up calls are not timed and exactly the requested number of calls is.',
 ['inputs','configurations'],'all durations, repeats, sizes and clock frequencies; all argument strings',
 'There is no test of the application, and real time makes metrics unpredictable.',
 ['app/include/milo/app/type.h','app/include/milo/app/command/benchmark.h','app/include/milo/app/run.h'],[('serialization','type.h to_json'),('metrics','benchmark.h invoke/measure')],None,['standard output under a virtual clock'])
p('P26','Secret values do not steer the execution of the algorithms',
 'For equal sizes, the sequence of instructions executed and the addresses accessed by hashes, MACs, key derivation, the cipher, AEAD and encoding do not depend on the values of keys, messages or digests. There are no secret-dependent branches, table look-ups or early exits.',
 ['inputs','configurations'],'all values for equal sizes x backends x optimization levels',
 'Results are the same; only the execution trace differs.',
 [D+'mac/poly/poly_1305.h',D+'mac/poly/poly_1305_impl_sw.h',D+'cipher/chacha/chacha_impl_sw.h',D+'codec/base_16.h',D+'codec/base_64.h','src/milo/internal/memory.h'],[('mask selects','poly_1305.h finalize, base_*.h')],None,['instruction and address trace'])
p('P27','Options do exactly what they name, in any combination and order',
 'A digest size option from one byte to the native size makes the digest or tag the leading bytes of the standard one, and whatever is built from it (HMAC over a cut hash, key derivation over a cut HMAC) follows its standard with that size. An implementation named by an option is the one that runs (for run time, enforced, or for compile time, each where it applies) and no other option of an algorithm changes with it. Options may come in any order, the first of a kind decides, at run time and at compile time alike.',
 ['configurations','inputs'],'all digest sizes of all algorithms x messages; all sequences of options up to a bound',
 'No test uses an option other than those of the aliases.',
 ['src/milo/option.h','src/milo/internal/option.h','src/milo/internal/impl.h',D+'hash/sha/sha_2_512.h',D+'mac/hmac/hmac.h',D+'mac/poly/poly_1305.h','src/milo/primitive/detail/kdf/hkdf.h'],[('selection','option.h query, impl.h impl_proxy')],None,['return values','uses of supplied implementations'])
p('P28','Tests accept exactly the vectors that hold, by hand or generated',
 'The testing interface answers yes for a vector exactly when the algorithm gives the expected bytes and size for its inputs, and never crashes; a differential test answers yes exactly when both implementations gave the same result in every computation it made. A program generated from a configuration compiles and ends with success exactly when every vector holds for every listed implementation, at run time or at compile time as listed, and listed run-time implementations do not differ.',
 ['inputs','configurations'],'all single changes of right vectors; all single faults of an implementation up to a bound; configurations of every scheme',
 'The tests of the repository use this interface with right vectors only: one that always answers yes would pass them all.',
 ['src/milo/primitive/hash/test.h','src/milo/primitive/mac/test.h','src/milo/primitive/kdf/test.h','src/milo/primitive/cipher/test.h','src/milo/primitive/aead/test.h','src/milo/primitive/codec/test.h','tool/codegen/main.py','tool/codegen/src/cpp/lang.py','tool/codegen/src/cpp/milo.py'],[('memory_equal','internal/memory.h')],None,['return values','generated programs and their exit status'])
p('P29','Results do not depend on the byte order of the machine',
 'Built for a big-endian machine, every hash, MAC, key derivation, cipher, AEAD and codec gives the same bytes, sizes and verdicts as on a little-endian one, for every input, chunking and call history. Loading, storing, copying, initializing, comparing and swapping numbers of every width at every offset and partial size gives what the byte layout of the machine and the requested byte order say, and touches nothing else.',
 ['configurations','inputs','operation sequences'],'both byte orders x all inputs and chunkings x all pairs of number widths, offsets and sizes',
 'Every test runs on a little-endian machine; the documentation says big endian was never tested.',
 ['src/milo/internal/endian.h','src/milo/internal/memory.h',D+'mac/poly/poly_1305.h',D+'mac/poly/poly_1305_impl_sw.h',D+'cipher/chacha/chacha.h',D+'hash/sha/sha_2_256.h'],[('byte order','endian.h endian_big, endian_bigof/littleof'),('memory layer','memory.h memory_load/stor/copy/init')],None,['return values','buffers'])
p('P30','Calls compile exactly for the documented types',
 'Every form of every operation accepts as input any pointer to or container of characters (char, signed or unsigned), as output any writable one, as result type any resizable container where a size is given and any fixed one that the output fills where not, and compiles for each of them. Everything else is refused at compile time: elements that are not characters, constant outputs, results larger than the digest, containers without storage in one piece, errors that are not milo::error, an algorithm in the place of one of another kind.',
 ['configurations'],'all forms of calls x all kinds of types for each argument',
 'A test that compiles cannot show what must not compile, and the tests use few types.',
 ['src/milo/meta.h','src/milo/primitive/hash/apie.h','src/milo/primitive/mac/apie.h','src/milo/primitive/kdf/apie.h','src/milo/primitive/cipher/apie.h','src/milo/primitive/aead/apie.h','src/milo/primitive/codec/apie.h'],[('byte, bytes, container_static/dynamic','meta.h concepts'),('size limit','apie.h digest() requires')],None,['acceptance by the compiler'])
p('P31','Results do not depend on the word size of the machine',
 'Built for a 32-bit machine, every hash, MAC, key derivation, cipher, AEAD and codec gives the same bytes, sizes and verdicts as on a 64-bit one, for every input, chunking and call history. That holds for inputs and results of every size the machine can express in one call and for messages, additional data and texts beyond 2^32 bytes given in several calls.',
 ['configurations','inputs','operation sequences'],'32-bit builds x all inputs, chunkings and call histories x sizes to the limits of the machine and beyond them in several calls',
 'Every test runs on a 64-bit machine with short messages, where a counter or size of the wrong type cannot be seen.',
 ['src/milo/meta.h','src/milo/internal/memory.h',D+'codec/base_64.h',D+'hash/impl.h',D+'aead/chacha/chacha_20_poly_1305.h',D+'mac/poly/poly_1305_impl_sw.h','src/milo/internal/arch/x86_32/cpuid.asm'],[('message counters','impl.h blocks and processed bytes'),('sizes','base_64.h encode_size, decode_size')],None,['return values','buffers'])
json_lines='\n'.join(json.dumps(x) for x in P)+'\n'
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w').write(json_lines)
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
print(len(P))
