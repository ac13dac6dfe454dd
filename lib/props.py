"""Which function decides which property."""
import importlib

MODULES = dict(
    C01='p_lang', C02='p_num', C03='p_lang', C04='p_lang', C05='p_lang', C06='p_lang', C07='p_lang', C08='p_num', C09='p_lang', C10='p_input', C11='p_text', C12='p_text', C13='p_driver', C14='p_tape', C15='p_vm', C16='p_vm', C17='p_lang', C18='p_session', C19='p_size', C20='p_lib', C21='p_tape', C22='p_num',
)


class _P:
    def __getitem__(self, k):
        m = importlib.import_module(MODULES[k])
        return getattr(m, k.lower())


PROPS = _P()

# technique and level note of a property, where they are not those of the
# language properties; reasons for properties without a check
ABOUT = dict(
    C11=('TLA+ specification of the reading of a source text (Lexer.tla) and of two texts read side by side up to a consistent '
         'renaming (Source.tla), checked by TLC for freedom of layout and spelling (LexerMC.tla); every rewritten text that TLC '
         'finds to be the same program is compiled and run by the real tools beside the first one',
         'Rewritings (layout, comments, text after end, spellings of symbols, names up to and beyond nine characters) of sampled '
         'programs; TLC decides for each pair that both are the same program, the real outcome has to be the same.'),
    C12=('TLA+ specification of the reading of a source text and of the conditions every program has to meet (Lexer.tla, '
         'Static.tla, Source.tla): TLC decides for spoiled programs and arbitrary texts whether they have to be refused and whether '
         'what the real compiler did is allowed (error with failure status, or a complete object program; no crash, no endless run)',
         'Sampled single and multiple edits of valid programs, undeclared names, and arbitrary texts; each one decided completely. '
         'Texts that meet the specified conditions but break other rules of the grammar may be refused or accepted.'),
    C13=('TLA+ specification of the driver (Driver.tla): TLC enumerates every command line over the specified alphabet of '
         'options, files and environments with the prescribed outcome; each is replayed on the real driver and compared',
         'Every scenario up to the bound (one file argument and all option orders up to the level in Driver*.cfg) is replayed '
         'and must agree in exit status, output, messages and files left behind. Unlisted option spellings and resource '
         'exhaustion are outside the specification.'),
    C14=('TLA+ specification of library tapes, the reading of them and linking (Tape.tla, TapeConf.tla), checked by TLC for '
         'faithfulness and for damage in every single position (TapeMC.tla); the real compiler links generated programs from '
         'generated, reordered, damaged tapes and TLC says for each what the object program has to contain',
         'The formats are checked exhaustively up to the bounds in TapeMC*.cfg; links are sampled (each decided completely: places, '
         'words, references, refusals), with all single positions of library tapes damaged in turn.'),
    C15=('TLA+ specification of the object machine with its stack invariants (X1VM.tla, VMTrace.tla): TLC executes the compiled '
         'object word by word beside the recorded execution of the real simulator and checks stack discipline after every order',
         'Every recorded step of generated and hand-written programs must be the step the specification takes, and satisfy the '
         'invariants of frames, display and operand stack; programs are sampled, each execution is decided to its end or a limit.'),
    C16=('TLA+ specification of every machine order and of the object-file loader (X1VM.tla, Object.tla): TLC predicts registers, '
         'store and conditions of random machine programs and the verdict on object files; the real simulator performs the same',
         'Random machine programs over all supported orders and address variants, and well-formed and damaged object files; '
         'store, registers, output and ending must agree with the specification after every order.'),
    C21=('TLA+ specification of assembler text, tape code, parity and five-track rows (Tape.tla), checked by TLC for '
         'faithfulness (TapeMC.tla); the real assembler, converter and compiler process generated and damaged texts and tapes and '
         'TLC decides each result (TapeConf.tla)',
         'Encoding and decoding are proved inverse by exhaustive checking up to the bounds in TapeMC*.cfg; texts and tapes are '
         'sampled, each one decided completely. Texts with numbers of more than 19 digits are outside.'),
    C18=('TLA+ specification of histories of compile, run and trace actions (Session.tla): TLC enumerates the histories, '
         'the real tools perform them, and TLC checks the recorded histories against the specification',
         'All histories of three actions over the modelled actions (a sample of them per quick run), each on generated programs; '
         'equality of objects, output, error and exit status is decided, clock and unseeded random numbers are excepted.'),
)
NOT = {}
