#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(qtext.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))


p("C01", "A successful merge accounts for every input posting exactly once",
  """After a merge succeeds, every posting of every input transaction is found exactly once: as an output posting of
  its own, or combined into exactly one output posting, or, together with all the other postings of its transaction,
  in the unmerged output. Nothing is lost, duplicated or shared out over several transactions: the postings of one
  merged input transaction all end up in one output transaction, and every output posting and transaction stems from
  an input one.""",
  ["inputs", "histories"],
  """All sequences of input journals (any number of files, source groups, transactions and postings) for which the
  merge succeeds.""",
  """The tests merge a few hand-written journals with at most a handful of transactions; conservation quantifies over
  every history of merges, and depends on arena, date index and per-transaction posting lists staying in step.""",
  ["src/merge/merger.rs", "src/merge/posting.rs", "src/merge/transaction.rs", "src/internal.rs", "src/mutcell.rs"],
  [("Merger::apply_pending / apply_post_actions_to_trn", "src/merge/merger.rs"),
   ("MergeActionsAccumulator::push", "src/merge/merger.rs"), ("Merger::build", "src/merge/merger.rs"),
   ("IndexedTransactions::add/into_iter", "src/merge/transaction.rs"), ("MutCell::map_value", "src/mutcell.rs")],
  [("post_arena", "all merged postings", "src/merge/posting.rs"),
   ("trn_arena, trns_by_date", "all merged transactions and their order", "src/merge/transaction.rs"),
   ("Holder.postings", "postings of one transaction", "src/merge/transaction.rs")],
  ["stdout and --unmerged file of `accountmerge merge`"])

p("C02", "Merge rejects every bad input set and then writes no output",
  """A merge fails exactly when, in some source group, a posting has no fingerprint tag or carries a `candidate-` tag,
  two postings of the group share a fingerprint, a posting shares fingerprints with several existing postings, two
  postings match the same existing posting, or one transaction's postings match postings of different existing
  transactions (or when a file is unreadable, or transactions go unmerged and no unmerged output was named). A failing
  merge reports an error and leaves the merged and the unmerged output files as they were, and input that has none of
  these faults is accepted.""",
  ["inputs", "histories"],
  """All sequences of input journals, with every kind of fault at every position and in combination with any earlier
  successfully merged groups.""",
  """Tests show single faults in two-transaction journals; they cannot show that no fault slips through for other
  shapes, that valid input is never rejected, or that nothing was merged when a late group turns out to be bad.""",
  ["src/merge/merger.rs", "src/merge/posting.rs", "src/merge/cmd.rs"],
  [("Input::from_posting_internal", "src/merge/posting.rs"), ("Merger::check_pending", "src/merge/merger.rs"),
   ("Merger::to_transaction_merge_action (fingerprints_seen)", "src/merge/merger.rs"),
   ("Merger::find_existing_dest_trn", "src/merge/merger.rs"), ("Command::run", "src/merge/cmd.rs")],
  [("fingerprints_seen", "fingerprints of the group's postings so far", "src/merge/merger.rs")],
  ["exit status, output files of `accountmerge merge`"])

p("C03", "A shared fingerprint decides which existing posting is updated",
  """An input posting that shares at least one fingerprint tag with an already merged posting is combined with exactly
  that posting, however its account, amount, balance and date compare, and value-based matching is considered only
  when none of its fingerprints is known. Fingerprints count from the moment the posting carrying them was merged,
  including those an existing posting gained when another posting was combined into it, and only tags with the
  fingerprint prefix count.""",
  ["inputs", "histories"],
  """All sequences of input journals and all fingerprint sets on their postings.""",
  """The fingerprint index must agree with the tags of every posting after every possible history of additions and
  combinations; the tests look at two or three steps.""",
  ["src/merge/posting.rs", "src/merge/matchset.rs", "src/fingerprint.rs"],
  [("IndexedPostings::register_fingerprints", "src/merge/posting.rs"),
   ("IndexedPostings::find_posting_by_fingerprints", "src/merge/posting.rs"),
   ("MatchSet::insert", "src/merge/matchset.rs"), ("is_fingerprint", "src/fingerprint.rs")],
  [("post_by_fingerprint", "index from fingerprint tag to posting", "src/merge/posting.rs")],
  ["output of `accountmerge merge`"])

p("C04", "Value matching is exact; ambiguous matches go unmerged, naming candidates",
  """A posting without a known fingerprint is matched against the postings that entered from earlier source groups
  under the same transaction date: equal amount (numerically, same commodity and prices), equal balance when both have
  one, and equal account unless either is tagged `unknown-account`. One match is combined into, no match adds a new
  posting, and with several matches the whole transaction is left unmerged and unchanged except that the ambiguous
  posting gains, for every matching posting, one tag `candidate-` followed by a fingerprint of that posting.""",
  ["inputs", "histories"],
  """All pairs of postings and all sets of existing postings per date.""",
  """The match predicate ranges over all combinations of accounts, tags, amounts and optional balances, and the
  candidate set over all existing postings of a day; tests sample a dozen combinations and at most two candidates.""",
  ["src/merge/posting.rs", "src/merge/merger.rs", "src/merge/matchset.rs"],
  [("posting::matches", "src/merge/posting.rs"), ("IndexedPostings::find_matching_postings", "src/merge/posting.rs"),
   ("Merger::determine_posting_action", "src/merge/merger.rs")],
  [("posts_by_date", "existing postings per transaction date", "src/merge/posting.rs")],
  ["merged and unmerged output of `accountmerge merge`"])

p("C05", "Combining postings never loses or overwrites established information",
  """When an input posting is combined into an existing one, the existing posting keeps its amount, its balance when it
  has one and its position; it gains a missing balance, a missing status or pending-to-cleared, and takes the input's
  account only when it is itself tagged `unknown-account` and the input is not (the tag is then dropped, and it is
  never gained). Its tags become the union, its value tags are overwritten key by key by the input's, its comment
  lines gain those not already present, and no other posting and no transaction-level field changes.""",
  ["inputs", "histories"],
  """All pairs of postings: every status, balance, account, tag, value tag and comment combination.""",
  """The update rule is a case distinction over the product of statuses, balances, unknown-account tags and comment
  contents, most combinations of which no test exercises, and its frame (nothing else changes) is never checked.""",
  ["src/merge/posting.rs", "src/comment.rs"],
  [("posting::merge", "src/merge/posting.rs"), ("Comment::merge_from", "src/comment.rs"),
   ("IndexedPostings::merge_into", "src/merge/posting.rs")],
  (), ["output of `accountmerge merge`"])

p("C06", "Merged output is ordered by date, then by arrival; postings keep their order",
  """The merged output lists transactions by ascending date; transactions of one date appear in the order in which they
  were added, that is by input file, then by ascending source name within the file, then by position in the file.
  Within a transaction the postings appear in the order in which they were added to it, and a transaction left
  unmerged keeps its order in the unmerged output, which follows the same arrival order.""",
  ["inputs", "histories"],
  """All sequences of input journals, dates and source tags.""",
  """Order has to survive grouping by hash maps for every number of dates and sources; tests have at most three
  transactions on two dates.""",
  ["src/merge/transaction.rs", "src/merge/sources.rs", "src/merge/merger.rs", "src/merge/cmd.rs"],
  [("IndexedTransactions::into_iter", "src/merge/transaction.rs"), ("sources::read_ledger_file", "src/merge/sources.rs"),
   ("Merger::build", "src/merge/merger.rs")],
  [("trns_by_date", "transactions per date in arrival order", "src/merge/transaction.rs")],
  ["output of `accountmerge merge`"])

p("C07", "Merging treats each source separately and only unmerged output names it",
  """Each input file is split by the `source-file` value tag of its transactions (the file's own name when absent), and
  each such group is merged as a set of its own, in ascending order of the source name: postings of one group are
  never matched against each other, but are matched against everything merged before. Every transaction in the
  unmerged output carries the tag with its source, and no transaction in the merged output carries one.""",
  ["inputs", "histories"],
  """All input files and all assignments of source tags to their transactions.""",
  """No test runs the grouping or the tag stripping at all; the guarantee is over every mix of tagged and untagged
  transactions and every number of sources.""",
  ["src/merge/sources.rs", "src/merge/cmd.rs"],
  [("sources::read_ledger_file", "src/merge/sources.rs"), ("sources::strip_sources", "src/merge/sources.rs"),
   ("Command::run", "src/merge/cmd.rs")],
  (), ["merged and unmerged output of `accountmerge merge`"])

p("C08", "Re-merging merged output with its inputs changes nothing",
  """If a merge of journals succeeds with nothing left unmerged, then merging its output alone, or its output followed
  by the same journals in the same order, succeeds, leaves nothing unmerged, and yields the same output again.""",
  ["inputs", "histories"],
  """All sequences of journals whose merge succeeds without unmerged transactions.""",
  """Idempotence relates whole runs of the tool; no test merges its own output.""",
  ["src/merge/posting.rs", "src/merge/merger.rs", "src/comment.rs"],
  [("posting::merge (idempotent)", "src/merge/posting.rs"), ("Comment::merge_from", "src/comment.rs"),
   ("IndexedPostings::find_matching_postings", "src/merge/posting.rs")],
  (), ["output of `accountmerge merge` run on its own output"])

p("C09", "Comments are written in one canonical form that loses no tag, value or text",
  """Writing a comment puts every flag tag, value tag and non-blank text line out exactly once, in an order that depends
  only on the contents: first one `:a:b:` group of all tags of at most 12 bytes in sorted order, then each longer tag
  sorted on a line of its own, then the text lines in order (the first of them appended to the first tag line when
  there is one), then the value tags as `key: value` sorted by key. A comment that has no contents is written as no
  comment.""",
  ["inputs"],
  """All comments: any tag sets, value tags and text lines.""",
  """The output must be independent of hash iteration order for every set of tags; tests use up to four tags.""",
  ["src/comment.rs", "src/internal.rs"],
  [("Comment::into_opt_comment", "src/comment.rs"), ("Into<Posting>/Into<Transaction>", "src/internal.rs")],
  (), ["comments in the output of `accountmerge merge`, `apply-rules`, `generate-fingerprints`"])

p("C10", "Fingerprints depend on every identifying value, unambiguously, and stay stable",
  """The fingerprint of an imported posting is a fixed function (SHA-1 over length-prefixed or fixed-width encodings of
  the identifying values, in a fixed order, base64 without padding) of its record's values and the namespace: two
  different value sequences of the same shape never feed the hash the same bytes, the same ones always do, and a
  posting of the importing account and its peer always differ. A namespace is accepted exactly when it consists of
  ASCII letters, digits, `_`, `+` and `/`, so that tags stay parseable.""",
  ["inputs"],
  """All values of each fingerprinted type, all value sequences, all namespaces.""",
  """Injectivity and stability quantify over all pairs of value sequences; the tests pin fourteen hashes.""",
  ["src/fingerprint.rs", "src/importers/util.rs"],
  [("Fingerprintable impls", "src/fingerprint.rs"), ("FingerprintBuilder::new/with/build", "src/fingerprint.rs"),
   ("Fingerprint::tag/legacy_tag", "src/fingerprint.rs"), ("self_and_peer_fingerprints", "src/importers/util.rs")],
  (), ["fp- tags in the output of `accountmerge import`"])

p("C11", "Imported transactions balance and say which side is which",
  """Every transaction written by any importer consists of pairs of postings, the first tagged `import-self` in
  `assets:unknown` with the record's signed amount, the second tagged `import-peer` with exactly the negated amount in
  the same commodity, in `expenses:unknown` when the first is negative and in `income:unknown` otherwise. Both carry
  `unknown-account`, only the first carries the record's balance, and no amount is rounded.""",
  ["inputs"],
  """All records of all import formats: every sign, magnitude and scale of amount.""",
  """Balance is an algebraic fact over all amounts and signs; the golden tests contain about a dozen amounts.""",
  ["src/importers/util.rs", "src/importers/nationwide_csv.rs", "src/importers/nationwide_pdf.rs",
   "src/importers/paypal_csv.rs", "src/ledgerutil.rs"],
  [("self_and_peer_account_amount", "src/importers/util.rs"), ("negate_amount", "src/importers/util.rs"),
   ("PostingFormer::form_postings", "src/importers/nationwide_csv.rs"),
   ("TransactionBuilder::build", "src/importers/nationwide_pdf.rs"), ("PaypalCsv::form_postings", "src/importers/paypal_csv.rs")],
  (), ["output of `accountmerge import`"])

p("C12", "Nationwide CSV: one transaction per row, in order, with per-day sequence",
  """Importing a Nationwide CSV file yields exactly one transaction per data row, in file order, with the row's date,
  description (for the five-column form with ` @ location` when there is one), money in pounds and pence as written
  and the row's other fields as tags; a row whose paid-in/paid-out columns are both or neither filled, or any malformed
  date or money value, makes the import fail. Consecutive rows of the same date are numbered 1, 2, 3, ... in the `seq`
  tag and in the fingerprint, and the numbering restarts when the date changes.""",
  ["inputs"],
  """All CSV files of either format: any number of rows, any sequence of dates, any field contents.""",
  """Golden tests import two files with at most three rows each; row counts, date changes and money values range over
  all inputs.""",
  ["src/importers/nationwide_csv.rs", "src/importers/nationwide.rs"],
  [("NationwideCsv::process_rows", "src/importers/nationwide_csv.rs"),
   ("GbpValue::from_str", "src/importers/nationwide_csv.rs"), ("FpNamespace::make_namespace", "src/importers/nationwide.rs")],
  [("date_counter, prev_date", "per-date sequence number", "src/importers/nationwide_csv.rs")],
  ["output of `accountmerge import nationwide-csv`"])

p("C13", "PayPal CSV: rows of one instant form one transaction, dated in output zone",
  """Importing a PayPal CSV file turns each maximal run of consecutive rows with the same instant into one transaction,
  in file order, holding a self and a peer posting per row in row order; no row is lost or repeated. The transaction
  is dated by that instant in the output time zone, named by the first non-empty name of its rows (failing if none has
  one), and each posting is cleared or pending as its row says and carries the row's amount, balance, receipt and
  type.""",
  ["inputs", "configurations"],
  """All PayPal CSV files, abbreviation tables and output time zones.""",
  """One golden file in UTC; grouping, day changes between zones and name selection range over all row sequences and
  zones.""",
  ["src/importers/paypal_csv.rs", "src/tzabbr.rs"],
  [("PaypalCsv::read_transactions (chunk_by)", "src/importers/paypal_csv.rs"),
   ("PaypalCsv::form_transaction/form_postings", "src/importers/paypal_csv.rs"),
   ("Record::from_csv_record", "src/importers/paypal_csv.rs")],
  (), ["output of `accountmerge import paypal-csv`"])

p("C14", "Nationwide PDF: OCR tables become one transaction per payment or receipt line",
  """Importing a scanned statement yields, in reading order, one transaction for each table line with a payment or a
  receipt (both is an error), negative for payments, dated by the latest day and month read so far in the table's
  year, numbered per date; following lines without an amount extend its description, balance or effective date until
  the next such line, and a vertical gap of more than two line heights ends the table. OCR records that do not nest as
  pages, blocks, paragraphs, lines and words numbered from 1 are rejected, and a word belongs to a column exactly when
  it overlaps it horizontally.""",
  ["inputs"],
  """All OCR record sequences: any number of pages, tables, lines and words, any positions and numbers.""",
  """Only single helper functions are unit-tested; no test reads a table or builds a transaction from OCR output.""",
  ["src/importers/nationwide_pdf.rs", "src/importers/tesseract.rs"],
  [("Document::feed_record", "src/importers/tesseract.rs"), ("Bounds::overlaps", "src/importers/tesseract.rs"),
   ("TransactionsAccumulator::feed_line/flush_transaction", "src/importers/nationwide_pdf.rs"),
   ("NationwidePdf::lines_to_transactions", "src/importers/nationwide_pdf.rs"),
   ("Table::read_lines", "src/importers/nationwide_pdf.rs")],
  [("cur_trn_opt, prev_date, date_counter", "transaction being assembled", "src/importers/nationwide_pdf.rs")],
  ["output of `accountmerge import nationwide-pdf`"])

p("C15", "Rules run in order, on matching postings only, and change only what they name",
  """Applying rules processes each posting of each transaction in order with the `start` chain: rules fire in order
  exactly when their predicate holds for the current state, `Return` after a fired rule ends that chain only, a jump
  runs another chain and then continues, and an `Error` action fails the whole command without output. Each action
  changes exactly the field, tag or value tag it names and nothing else, so a posting no rule matches is unchanged,
  and transactions and postings keep their number and order.""",
  ["inputs", "programs"],
  """All rule tables (acyclic jumps), all predicates including nested ones, all journals.""",
  """Rule tables are programs: the meaning of chains, returns, jumps and nested predicates ranges over all of them,
  while tests run about twenty tables on one or two postings.""",
  ["src/rules/table/mod.rs", "src/rules/table/predicate.rs", "src/rules/cmd.rs"],
  [("Table::update_transaction, Chain::apply, Rule::apply, Action::apply", "src/rules/table/mod.rs"),
   ("Predicate::is_match", "src/rules/table/predicate.rs")],
  (), ["output of `accountmerge apply-rules`"])

p("C16", "A rules file is loaded completely or rejected before it is applied",
  """Loading a rules file takes the chains of the file and, relative to the including file, of every file it includes
  directly or indirectly, each file once even when reached repeatedly or in a cycle. It is rejected when two chains
  have the same name, when there is no `start` chain, when any rule in any chain, at any nesting depth, jumps to a chain
  that does not exist, or when a file is missing or malformed; otherwise no lookup of a chain can fail while rules are
  applied.""",
  ["inputs", "configurations"],
  """All sets of rules files and include graphs, all nestings of actions.""",
  """Tests cover one include and one missing chain; the guarantee is over all include graphs and action nestings.""",
  ["src/rules/table/source.rs", "src/rules/table/mod.rs"],
  [("File::load_into", "src/rules/table/source.rs"), ("Table::validate, Chain::validate, Action::validate",
                                                      "src/rules/table/mod.rs")],
  [("seen_paths", "canonical paths already loaded", "src/rules/table/source.rs")],
  ["exit status and stderr of `accountmerge apply-rules`"])

p("C17", "generate-fingerprints tags exactly the postings that lack a fingerprint",
  """`generate-fingerprints` adds exactly one new `fp-` tag to every posting that has no fingerprint tag and changes
  nothing else: postings that have one, all other tags, amounts, comments, transactions and their order stay as they
  are. Afterwards every posting of the journal has a fingerprint, so a second run changes nothing.""",
  ["inputs"],
  """All journals: any number of transactions, postings and tags.""",
  """There is no test of this command.""",
  ["src/fpgen.rs", "src/fingerprint.rs"],
  [("update_transactions", "src/fpgen.rs"), ("is_fingerprint", "src/fingerprint.rs")],
  (), ["journal rewritten by `accountmerge generate-fingerprints`"])

p("C18", "Rewriting a journal keeps every transaction; what it cannot keep is refused",
  """Reading a journal for merging, rules or fingerprints and writing it back keeps every transaction and posting, in
  order and one blank line apart, with all their fields, comments being reformatted only; a journal containing an item
  other than transactions and blank lines (such as a comment line, price or include) is refused with an error, never
  silently dropped. A tool that fails on a journal leaves that journal's file as it was.""",
  ["inputs"],
  """All journals the parser accepts.""",
  """Round-trips and item kinds range over all journals; there is no test of refusal or of whole-file rewriting.""",
  ["src/internal.rs", "src/ledgerutil.rs", "src/filespec.rs", "src/fmt.rs"],
  [("TransactionPostings::from_ledger/into_ledger", "src/internal.rs"), ("From/Into conversions", "src/internal.rs"),
   ("ledger_from_transactions", "src/ledgerutil.rs")],
  (), ["output of every journal-rewriting subcommand"])

p("C19", "Time zone abbreviations map to exactly the offset their table gives",
  """A time zone table row `UTC+hh`, `UTC-hh` or the same with `:mm` defines its abbreviation as that signed offset
  (minutes count in the direction of the sign); any other form, an offset of a day or more or of 60 minutes or more, or
  a repeated abbreviation makes the table be rejected, and an abbreviation the table does not define makes the
  import fail rather than fall back to some zone.""",
  ["inputs", "configurations"],
  """All abbreviation tables and all offsets.""",
  """Tests pin ten offsets; the sign and range rules quantify over all of them.""",
  ["src/tzabbr.rs", "src/importers/paypal_csv.rs"],
  [("parse_utc_offset", "src/tzabbr.rs"), ("TzAbbrDB::from_reader/abbr_to_tz", "src/tzabbr.rs"),
   ("parse_timezone", "src/importers/paypal_csv.rs")],
  (), ["dates in the output of `accountmerge import paypal-csv`"])

p("C20", "Re-importing a record gives the same fingerprints; different records differ",
  """Importing the same records again, in a file that also has other records of other dates around them, gives each
  posting the same fingerprint tag again, so that merging recognises it. Within one import that lists the records of a
  date (for PayPal: of an instant) next to each other no two postings get the same fingerprint, and both the self and
  the peer posting carry one.""",
  ["inputs", "histories"],
  """All import files and all ways of splitting a history into overlapping statements at date boundaries.""",
  """Stability relates several imports; the golden tests import each file once.""",
  ["src/importers/nationwide_csv.rs", "src/importers/nationwide_pdf.rs", "src/importers/paypal_csv.rs",
   "src/fingerprint.rs"],
  [("RecordFive/RecordSix::fingerprint_v1", "src/importers/nationwide_csv.rs"),
   ("TransactionBuilder::build", "src/importers/nationwide_pdf.rs"), ("PaypalCsv::form_transaction", "src/importers/paypal_csv.rs")],
  (), ["fp- tags in the output of `accountmerge import`"])

p("C21", "Command output is a function of the inputs alone",
  """Running any command except `generate-fingerprints` twice on the same input files with the same options produces
  byte-identical output and the same success or failure, whatever hash seeds the process draws (where a posting with
  several fingerprints is an ambiguous match, which of its fingerprints is named is left open).""",
  ["inputs", "schedules"],
  """All inputs, all hash seeds.""",
  """The tests compare parsed values within one process run; an ordering that leaks from a hash map shows only for some
  seeds and larger sets.""",
  ["src/comment.rs", "src/merge/sources.rs", "src/merge/transaction.rs"],
  [("sorting in Comment::into_opt_comment", "src/comment.rs"), ("sorting by source", "src/merge/sources.rs"),
   ("sorting by date", "src/merge/transaction.rs")],
  (), ["output of every subcommand over repeated runs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
