#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable and diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Every five-card hand gets its correct category and defining ranks",
  "For every five distinct cards, given in any order, evaluation succeeds and reports the category the rules of poker assign (high card, pair, two pair, three of a kind, straight, flush, full house, four of a kind, straight flush; A-2-3-4-5 is the lowest straight and straights never wrap around). It also reports the ranks that define it: the highest card of a high card, straight, flush or straight flush (five for A-2-3-4-5), the paired rank, the higher then the lower pair, the tripled rank, the trips then the pair of a full house, the quadrupled rank.",
  ["inputs"], "all 311,875,200 ordered deals of five distinct cards",
  "Tests look at ten hand-picked hands and count that 7,462 distinct results occur; they never compare one hand's category or ranks with the rules, so swapped, shifted or mislabelled table entries pass.",
  ["src/evaluate/evaluation.rs", "src/evaluate/lookup_table.rs", "src/evaluate/utils.rs", "src/evaluate/meta.rs", "src/card/mod.rs"],
  [("prime-product lookup of five cards, suited and unsuited table", "src/evaluate/evaluation.rs five()"),
   ("table construction by descending rank enumeration", "src/evaluate/lookup_table.rs"),
   ("bit permutation and prime product helpers", "src/evaluate/utils.rs")],
  ["Evaluator::evaluate", "Eval::class"],
  [{"name": "flush_lookup / unsuited_lookup", "meaning": "prime product -> hand metadata", "where": "src/evaluate/lookup_table.rs"}])

p("C02", "Comparing results is exactly the poker ranking, kickers included",
  "For any two evaluated hands, which one is better, worse or equal is exactly the standard poker ranking: category first, then the defining ranks, then every kicker in order, suits never breaking a tie; this gives 7,462 distinct strengths in one total order. The named comparison methods, the operators, total and partial ordering, minimum/maximum, sorting, equality and hashing all agree with it. The published best result equals a royal flush and nothing beats it; the published worst result equals 7-5-4-3-2 of mixed suits and nothing is beaten by it.",
  ["inputs"], "all pairs of the 7,462 strength classes (55,681,444 pairs), with every one of the 2,598,960 five-card hands tied to its class",
  "Three hand comparisons are tested; the ranking is a relation over all pairs, and a permutation of two neighbouring table ranks keeps every existing assertion true.",
  ["src/evaluate/eval.rs", "src/evaluate/meta.rs", "src/evaluate/hand_rank.rs", "src/evaluate/lookup_table.rs"],
  [("numeric hand rank 1..7462 stored with each table entry", "src/evaluate/hand_rank.rs"),
   ("Ord/PartialOrd/Eq/Hash by hand rank", "src/evaluate/meta.rs"),
   ("block boundaries WORST_* and enumeration order in each block", "src/evaluate/lookup_table.rs")],
  ["Eval::is_better_than", "Eval::is_worse_than", "Eval::is_equal_to", "Ord/PartialOrd/Eq/Hash for Eval", "Eval::BEST", "Eval::WORST"])

p("C03", "Six or more cards score exactly as their best five-card hand",
  "For every set of six or more distinct cards, up to the whole deck and in any order, evaluation succeeds and its result (category, defining ranks and full strength including kickers) equals that of the best five-card hand that can be chosen from those cards. In particular no five of the cards are ever overlooked and adding a card never makes a hand worse.",
  ["inputs"], "all hands of 6, 7 and 8 cards (8 up to suit renaming in the quick tier), larger hands up to 52 cards by the bounded families in DESIGN.md",
  "Twenty hand-picked six- and seven-card hands are tested, none larger; which five positions hold the best hand, and hands of eight or more where several categories compete, are never covered.",
  ["src/evaluate/evaluation.rs", "src/evaluate/utils.rs"],
  [("maximum over all five-card combinations", "src/evaluate/evaluation.rs six_plus()"),
   ("combination generator", "src/evaluate/utils.rs Combinations")],
  ["Evaluator::evaluate"],
  [{"name": "indices/done", "meaning": "position of the combination iterator", "where": "src/evaluate/utils.rs"}])

p("C04", "Invalid hands are rejected accurately and no hand makes evaluation panic",
  "For a card list of any length, evaluation returns and never panics. If any card occurs more than once the result is the not-unique error carrying exactly the given cards in the given order; otherwise, if there are fewer than five cards it is the hand-size error carrying exactly that number; otherwise it succeeds.",
  ["inputs"], "every card list of length 0 to 5 (387,659,012 + 1 lists, repetition allowed), and for lengths 6 to 300 every placement of one repeated card",
  "Tests reject two lists; duplicates that are far apart, of every card value, in long lists, or in lists longer than a deck are not tried.",
  ["src/evaluate/evaluation.rs", "src/evaluate/utils.rs", "src/error.rs"],
  [("52-bit duplicate mask", "src/evaluate/utils.rs all_unique / card_to_index"), ("length dispatch", "src/evaluate/evaluation.rs evaluate()")],
  ["Evaluator::evaluate", "EvalError"])

p("C05", "A result depends only on which cards were given",
  "The outcome of evaluating a set of cards is the same whatever order they are listed in, whatever container or slice they are passed in, whichever evaluator is used (freshly created, default-constructed or cloned, before or after other use), and whatever was evaluated, successfully or not, beforehand. All evaluators compare equal to one another.",
  ["inputs", "histories"], "all call histories of length 2 over the 7,462 strength classes plus invalid hands, length 3 to 4 over a colliding alphabet, on every way of obtaining an evaluator; all orders of representative hands",
  "Tests use one evaluator created one way, never repeat a hand and never look at what an earlier call does to a later one.",
  ["src/evaluate/mod.rs", "src/evaluate/evaluation.rs", "src/evaluate/lookup_table.rs"],
  [("Evaluator owns an immutable table", "src/evaluate/mod.rs"), ("Clone/Default/PartialEq of Evaluator", "src/evaluate/mod.rs")],
  ["Evaluator::new", "Evaluator::default", "Clone for Evaluator", "Evaluator::evaluate"])

p("C06", "Sharing an evaluator between threads never changes any result",
  "When several threads evaluate hands at the same time through one shared evaluator (or through separate evaluators), every call in every interleaving returns exactly what it returns when run alone, and every call completes. This includes invalid hands and evaluators being created or cloned concurrently.",
  ["schedules"], "all interleavings of 2 and 3 threads with 1 to 3 calls each, at every atomic, lock, once and thread-blocking operation of the crate, up to a preemption bound",
  "No test evaluates from two threads with a checked result; one doc example prints a maximum of random hands under one arbitrary schedule.",
  ["src/evaluate/mod.rs", "src/evaluate/evaluation.rs"],
  [("no shared mutable state behind &self", "src/evaluate/mod.rs Evaluator::evaluate")],
  ["Arc<Evaluator> shared by threads"])

p("C07", "Suits are interchangeable",
  "Renaming the four suits consistently in a hand (any of the 24 renamings) never changes the result of evaluating it, for hands of any size. Two hands that differ only by such a renaming always tie.",
  ["inputs"], "all 5-, 6- and 7-card hands under all 24 suit renamings (quick: 7 cards under generators of the group)",
  "Tests use fixed suits; a slip in one suit's bit, mask or index affects only some suit combinations.",
  ["src/card/suit.rs", "src/card/mod.rs", "src/evaluate/evaluation.rs", "src/evaluate/utils.rs"],
  [("one bit per suit, flush detected by AND of suit nibbles", "src/card/suit.rs, src/evaluate/evaluation.rs")],
  ["Evaluator::evaluate"])

p("C08", "Cards keep their identity and documented integer encoding",
  "For each of the 13 x 4 rank/suit choices, the card built from them reports back exactly that rank and suit, and two cards are equal (and hash equally) exactly when both rank and suit are the same. Its integer is distinct from every other card's and has the documented layout: one-hot rank bit above bit 16, one-hot suit in bits 12-15 (spades 1, hearts 2, diamonds 4, clubs 8), rank number 0-12 in bits 8-11, and the rank's prime (2 for deuce to 41 for ace) in the low byte; building in constant context gives the same card.",
  ["inputs"], "all 52 cards and all 2,704 ordered pairs, at compile time and at run time",
  "Two integers are checked for value, the rest only for uniqueness.",
  ["src/card/mod.rs", "src/card/rank.rs", "src/card/suit.rs", "src/constants.rs"],
  [("bit packing in Card::new and unpacking in rank()/suit()", "src/card/mod.rs"), ("PRIMES", "src/constants.rs")],
  ["Card::new", "Card::rank", "Card::suit", "Card::unique_integer", "Eq/Hash for Card"])

p("C09", "Parsing one card accepts exactly the 52 valid spellings",
  "A string parses as a card exactly when it is one character of 23456789TJQKA followed by one of chsd (case-sensitive, nothing before, between or after), and gives that card. Any other string gives an error that carries the original input: the length error if it is not exactly two characters (not bytes) long, else the rank error naming its first character if that is not a rank, else the suit error naming its second character. Building a card from two separate characters, and converting single characters to ranks or suits, accept the same characters and report the offending one.",
  ["inputs"], "all 1,112,064 Unicode scalar values in each position against every valid and many invalid partners, all ASCII strings up to length 3 (4 in thorough), all strings up to length 6 over a confusable alphabet",
  "Three bad strings and the 52 good ones are tested; Unicode, case, whitespace, lengths and multi-byte characters are not.",
  ["src/card/mod.rs", "src/card/rank.rs", "src/card/suit.rs", "src/error.rs"],
  [("FromStr for Card", "src/card/mod.rs"), ("TryFrom<char>", "src/card/rank.rs, src/card/suit.rs"), ("Card::try_from_chars", "src/card/mod.rs")],
  ["str::parse::<Card>", "Card::try_from_chars", "Rank::try_from", "Suit::try_from"])

p("C10", "Card text forms are correct and round-trip",
  "For every card, its two-character form is its rank character followed by its suit character and parses back to the same card, and no two cards share a form. Its display form is '[ ' + rank character + suit symbol + ' ]' with the suit symbols for clubs, hearts, spades and diamonds; ranks and suits display as their own character and symbol, and every rank and suit character converts back to the rank or suit it came from.",
  ["inputs"], "all 52 cards, 13 ranks, 4 suits, with all width/precision/fill formatting requests of a bounded menu never losing the text",
  "Display is asserted for two cards and one doc example; the round trip for one.",
  ["src/card/mod.rs", "src/card/rank.rs", "src/card/suit.rs"],
  [("rank_suit_string / Display", "src/card/mod.rs"), ("as_char / as_pretty_char", "src/card/rank.rs, src/card/suit.rs")],
  ["Card::rank_suit_string", "Display for Card/Rank/Suit", "Rank::as_char", "Suit::as_char", "Suit::as_pretty_char"])

p("C11", "Batch parsing yields one result per string, in order, however it is consumed",
  "Parsing a sequence of strings yields, in order, exactly the result each string gives on its own: errors do not stop or disturb later items, and no string is skipped, repeated or looked at before it is asked for. This holds however the iterator is consumed (step by step, by position, skipping, folded, collected, stopped and resumed), and its size bounds never exclude the number of results still to come. The collecting shortcut returns all cards in order if every string is valid and otherwise the error of the first invalid string.",
  ["inputs", "histories"], "all token lists up to length 5 over 6 kinds of token, each under all histories of next/nth/take/size-bound operations and every way of finishing",
  "Tests only collect all-valid lists from the front.",
  ["src/card/mod.rs", "src/card/macros.rs"],
  [("ParseToIter adaptor forwarding the iterator methods", "src/card/mod.rs"), ("try_collect", "src/card/mod.rs")],
  ["Card::parse_to_iter", "ParseToIter", "cards! with strings"])

p("C12", "A generated deck is exactly the standard 52 cards",
  "Every generated deck yields each of the 52 rank/suit combinations exactly once and then ends, in the same order every time. This holds however the sequence is consumed (step by step, skipping, stopping and resuming, together with other decks) and it never yields anything after the end.",
  ["inputs", "histories"], "all consumption histories up to depth 5 over next/nth/take/size bounds/skip on one and two live decks, and complete consumption after each",
  "Tests count cards, ranks and suits of one full pass only.",
  ["src/deck.rs"],
  [("cartesian product of all ranks and suits", "src/deck.rs generate()")],
  ["deck::generate"])

p("C13", "A shuffled deck is an unbiased rearrangement decided only by the generator",
  "Every shuffled deck contains each of the 52 cards exactly once, whatever values the random generator returns. With a supplied generator the order is a function of that generator's output alone (equal streams give equal decks, on any call), different choices give different decks, every card can land in every position and every ordered pair of cards in every ordered pair of positions; no position or card is left out of the shuffle.",
  ["inputs", "histories"], "all generator streams with up to 2 deviations (3 in thorough, bounded menu) from constant streams, and streams constructed for every card/position and pair/position-pair target",
  "One test counts the length of one random deck.",
  ["src/deck.rs"],
  [("full-deck shuffle of the generated deck with the caller's generator", "src/deck.rs shuffled_with()")],
  ["deck::shuffled_with", "deck::shuffled"])

p("C14", "Error messages state the facts of the failed input",
  "The message of every parse error quotes the original input and states the real cause: its true length in characters for a wrong-length input, otherwise the offending rank or suit character with the characters that were expected. The message of a hand error states the number of cards received, or names every card that occurs more than once exactly once each in its two-character form and no other card.",
  ["inputs"], "all error-producing inputs of the parsing alphabets; all duplicate patterns over hands up to length 8 with colliding ranks and suits, and every pair of duplicated cards",
  "Four messages are compared, all ASCII and with a single duplicate.",
  ["src/error.rs"],
  [("Display for ParseCardError", "src/error.rs"), ("Display for EvalError, duplicates counted by equality", "src/error.rs")],
  ["Display for ParseCardError and EvalError"])

p("C15", "Category tests, class and printed name of a result always agree",
  "For every evaluation result exactly one of the nine category tests is true and it is the one matching its class; the royal-flush test is true exactly for an ace-high straight flush. The printed name of the result and of its class is the documented phrase for that category with the right rank names (for example 'Pair, sevens', 'Two pair, kings and queens', 'Full house, jacks over fours', 'Straight, five-high', 'Royal flush').",
  ["inputs"], "all 7,462 strengths through 5-, 6- and 7-card hands, plus the published best and worst results, plus every constructible class value",
  "Ten hands are tested for one predicate each and four for their text.",
  ["src/evaluate/meta.rs", "src/evaluate/class.rs", "src/evaluate/eval.rs", "src/card/rank.rs"],
  [("is_* predicates on metadata", "src/evaluate/meta.rs"), ("Display for EvalClass", "src/evaluate/class.rs"), ("rank names", "src/card/rank.rs")],
  ["Eval::is_*", "Eval::class", "Display for Eval and EvalClass"])

p("C16", "Ordering of hand classes never contradicts ordering of hands",
  "Hand classes are totally ordered by category (high card lowest, straight flush highest) and then by their defining ranks, most significant first, consistently across operators, comparison, maximum and equality. For any two evaluated hands, if the class of one is greater than the class of the other then the first hand is better; if one hand is better its class is never smaller.",
  ["inputs"], "all ordered pairs and triples-by-sorting of every constructible class value, and all pairs of the 7,462 strengths",
  "Two class comparisons are tested; the derived order silently depends on declaration order of variants and fields.",
  ["src/evaluate/class.rs", "src/evaluate/meta.rs", "src/card/rank.rs"],
  [("derived Ord on EvalClass (variant and field declaration order)", "src/evaluate/class.rs"), ("derived Ord on Rank", "src/card/rank.rs")],
  ["Ord/PartialOrd/Eq for EvalClass", "Eval::class"])

p("C17", "Cards and ranks compare by rank, deuce low to ace high",
  "Ranks are totally ordered 2 < 3 < ... < T < J < Q < K < A. Comparing two cards, by operators, comparison, maximum, minimum, clamping or sorting, gives exactly the comparison of their ranks, whatever their suits, and sorting cards keeps every card.",
  ["inputs"], "all 2,704 card pairs, 140,608 card triples, and all orders of small hands when sorting",
  "No test compares cards or ranks.",
  ["src/card/mod.rs", "src/card/rank.rs"],
  [("Ord for Card delegates to rank", "src/card/mod.rs"), ("derived Ord on Rank", "src/card/rank.rs")],
  ["Ord/PartialOrd for Card and Rank"])

p("C18", "Card-building macros build exactly the cards written",
  "Every form of the card macros (names separated by commas, 'of' form, string form, lists of either, trailing separators, constant and run-time contexts) builds exactly the cards named, in the order written. The string-list form splits on any whitespace and parses each word; the macro that joins card slices returns all cards of all its arguments, in order, with none lost, added or reordered, for any number and size of slices.",
  ["inputs", "programs"], "every card in every macro form, all ordered pairs of cards, all whitespace layouts up to a bound, and all joins of 2 to 4 slices of length 0 to 4 and of every argument type",
  "A handful of doc examples use each form once.",
  ["src/card/macros.rs", "src/card/mod.rs"],
  [("card!, cards!, box_cards!", "src/card/macros.rs")],
  ["card!", "cards!", "box_cards!"])

p("C19", "Results do not depend on how the crate is built",
  "The crate gives the same observable results in every supported build: with and without debug assertions and overflow checks, at every optimisation level, and with or without the optional shuffling feature. No build mode introduces a panic, a different evaluation, a different error or a different text.",
  ["configurations", "inputs"], "debug, checked-optimised, release and no-default-features builds, each over all five-card hands in a fixed order, all six-card hands, all short card lists, parsing and text families, compared block by block",
  "Tests run in one build mode only (debug, default features).",
  ["src/evaluate/evaluation.rs", "src/evaluate/utils.rs", "src/deck.rs", "src/lib.rs", "Cargo.toml"],
  [("explicit wrapping arithmetic; debug_assert without side effects", "src/evaluate/*.rs"), ("cfg(feature = \"rand\")", "src/deck.rs")],
  ["whole public API"])

p("C20", "Static-table evaluation agrees with the evaluator on every input",
  "With the optional static lookup feature, the free evaluation function returns for every card list, valid or not, exactly what an evaluator returns: the same strength, class, text and errors. This requires the table data exported for generating the static tables to be complete: one entry for every suited and every unsuited rank combination.",
  ["inputs", "configurations"], "all five-card hands and all six-card hands (seven in thorough) and all card lists of length 0 to 3 plus duplicates, against a static table generated from the crate's own table export",
  "The feature needs a network download to build, so none of its code or tests is ever compiled here.",
  ["src/evaluate/static_lookup.rs", "src/evaluate/evaluation.rs", "src/evaluate/lookup_table.rs"],
  [("StaticEvaluator maps flush/unsuited statics into the shared evaluation code", "src/evaluate/static_lookup.rs"), ("LookupTable exported for bootstrapping", "src/evaluate/mod.rs")],
  ["evaluate::static_lookup::evaluate"])

p("C21", "Jacks or Better: credits and payouts always follow the rules",
  "The video poker example starts with 100 credits; each round takes the wager and, if the final hand wins, returns it plus the winnings, so credits change by exactly the announced winnings or minus the wager. Winnings are the wager times 1 for a pair of jacks, queens, kings or aces, 2 two pair, 3 three of a kind, 4 straight, 6 flush, 9 full house, 25 four of a kind, 50 straight flush, 250 royal flush (4000 flat for a royal flush at the maximum wager of 5), and 0 otherwise. The game ends by itself exactly when credits reach 0 and never panics.",
  ["histories", "inputs"], "every hand class (every distinct strength, every pair rank) x every wager x dealt or drawn; every credit balance reachable in the bound x every wager x win and loss",
  "The examples have no tests at all.",
  ["examples/jacks-or-better.rs"],
  [("payout table", "examples/jacks-or-better.rs payout()"), ("credit bookkeeping in the game loop", "examples/jacks-or-better.rs main()")],
  ["transcript of the program for scripted input"],
  [{"name": "credits", "meaning": "current balance", "where": "examples/jacks-or-better.rs main()"}])

p("C22", "Jacks or Better: no card is lost, duplicated or changed in play",
  "In every round the hand shown holds five different cards. The numbers shown with the cards are those that swap them: after swapping, exactly the chosen positions have been refilled from the deck and every other position shows the same card as before; over any number of rounds hand and deck together always hold each of the 52 cards exactly once. Names shown for the hands are those of the cards shown, and the better/worse remark matches the comparison of their classes.",
  ["histories", "inputs"], "all 326 ordered choices of positions x draws from near and far, discards redrawn or not, over histories of several rounds, under a controlled shuffle",
  "The examples have no tests at all.",
  ["examples/jacks-or-better.rs", "src/deck.rs"],
  [("swap_cards", "examples/jacks-or-better.rs"), ("deck restored and reshuffled after each round", "examples/jacks-or-better.rs main()")],
  ["transcript of the program", "deck contents at each shuffle"],
  [{"name": "deck/hand", "meaning": "cards not dealt / cards dealt", "where": "examples/jacks-or-better.rs main()"}])

p("C23", "Jacks or Better: bad input is refused without effect",
  "A wager is accepted only if it is a whole number from 1 to 5 that does not exceed the current credits, and a swap request only if it is a whitespace-separated list of different numbers from 1 to 5 (an empty line swaps nothing). Anything else is refused with a message (whose numbers are those given, the limits or the credits, and which calls exactly those duplicates that were given more than once) and asked again, leaving credits, hand and deck unchanged, however many times it happens. 'quit', end of input, or CTRL+C or CTRL+D on an empty line at a terminal, at any prompt ends the game at once. A line typed (and edited) at a terminal means what the same line means when it is piped in.",
  ["histories", "inputs"], "all sequences of up to 3 inputs per prompt over a menu of valid and invalid inputs, at every balance near and below the maximum wager; and all key sequences up to a depth at a pseudo-terminal",
  "The examples have no tests at all.",
  ["examples/jacks-or-better.rs"],
  [("get_wager", "examples/jacks-or-better.rs"), ("get_swaps", "examples/jacks-or-better.rs")],
  ["transcript of the program for scripted input"])

p("C24", "The hand REPL answers every line by itself and survives all of them",
  "For each line of text, the REPL example prints exactly the name of the hand the whitespace-separated cards make, or the message of the error they cause; 'help' prints the help text, and 'quit', end of input, or CTRL+C or CTRL+D on an empty line at a terminal ends the session. No line ends the session otherwise or changes how any later line is answered; a line typed (and edited) at a terminal is answered like the same line piped in.",
  ["histories", "inputs"], "all sequences of up to 3 lines over a menu covering every class, every error kind and odd text, and every hand class once; and all key sequences up to a depth at a pseudo-terminal",
  "The examples have no tests at all.",
  ["examples/poker-repl.rs"],
  [("read-evaluate-print loop over cards! and Evaluator::evaluate", "examples/poker-repl.rs main()")],
  ["transcript of the program for scripted input"])

p("C25", "Using the crate for ever takes no more memory than using it for a while",
  "Whatever a program does with the crate, and however often: once it has let go of the results, the memory in use does not keep growing, neither with the same inputs again and again nor with ever different ones, on the same thread or on new ones, whether calls succeed, fail or are cut short by a panic in the caller's own code. Nor does the stack a call needs grow with its input: card lists, strings, batches, slices and rejected random draws of any length are handled on a small stack.",
  ["histories", "inputs"], "all sequences of up to 3 uses out of 34, repeated until memory stops growing; each use with up to 2^17 different inputs and all pairs with 2^12; every input of wide spaces four times; sizes up to 2^20 on a stack of 256 KiB",
  "Tests end before anything can accumulate, and never look at memory.",
  ["src/evaluate/mod.rs", "src/evaluate/evaluation.rs", "src/evaluate/lookup_table.rs", "src/card/mod.rs", "src/deck.rs"],
  [("Evaluator owns its tables; evaluation keeps nothing", "src/evaluate/mod.rs"), ("errors own copies of what was wrong", "src/evaluate/eval.rs, src/card/mod.rs")],
  ["bytes handed out by the global allocator and not given back", "process survival"])

p("C26", "The crate has no effects besides its results",
  "Using the crate does nothing a program or its user could notice other than give results: it writes nothing to standard output, standard error or anywhere else, opens and reads no files, starts no processes and leaves no threads behind, neither reads nor changes environment variables, does not read the clock, and neither replaces nor triggers the program's panic hook. The operating system is asked for nothing but memory, locks and randomness.",
  ["histories", "inputs"], "all sequences of up to 2 uses out of 34 in fresh processes (3 in thorough), all sequences of 3 in running ones, and every input of wide spaces, in processes that have given up every other system call",
  "Test runners capture output and tolerate system calls.",
  ["src/evaluate", "src/card", "src/deck.rs"],
  [("pure functions over owned tables", "src/evaluate/evaluation.rs"), ("thread_rng is the only source outside the arguments", "src/deck.rs")],
  ["system calls", "environment", "panic hook"])

p("C27", "No call takes more work than its input accounts for",
  "The work of a call is bounded by its input alone. Evaluating a hand takes a bounded amount of work for each choice of five of its cards; parsing, displaying, collecting, joining, comparing and dealing take work at most about proportional to the number of characters, cards or values given; building, cloning or comparing an evaluator takes a fixed amount (nowhere near that of going through all hands). What was called before, how often and with what inputs, does not make a later call take more.",
  ["inputs", "histories"], "a hand of every strength, larger hands, every card; 32 calls with inputs of all sizes 2^4 to 2^15 (2^18 in thorough); each of 29 uses counted after each other use was made up to 32,768 times with ever different inputs (262,144 in thorough)",
  "Tests check results; a quadratic loop or tables built again for each call give the same results, and on the inputs of a test no visible delay.",
  ["src/evaluate", "src/card", "src/deck.rs"],
  [("tables are built once, lookups are by product and flush pattern", "src/evaluate/evaluation.rs"), ("six and more cards: each choice of five", "src/evaluate/evaluation.rs"), ("parsing reads two characters", "src/card/card.rs")],
  ["instructions", "sizes of input", "call history"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
