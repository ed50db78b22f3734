@file importers/cmd.rs
@pubfields Command
@add
#[verifier::external_type_specification]
pub struct ExImporter(Importer);
#[verifier::external_type_specification]
pub struct ExImportCommand(Command);
use ledger_parser::Ledger;
use std::path::PathBuf;
use crate::ledgerutil::as_items;
/// The import that was asked for.
pub uninterp spec fn asked(c: Command) -> bool;
pub open spec fn gives(m: Importer, i: Import) -> bool {
    match m { Importer::NationwideCsv(x) => importers::nationwide_csv::import_gives(x, i), Importer::NationwidePdf(x) => importers::nationwide_pdf::import_gives(x, i), Importer::PaypalCsv(x) => importers::paypal_csv::import_gives(x, i) }
}
pub open spec fn bad(m: Importer) -> bool {
    match m { Importer::NationwideCsv(x) => importers::nationwide_csv::import_bad(x), Importer::NationwidePdf(x) => importers::nationwide_pdf::import_bad(x), Importer::PaypalCsv(x) => importers::paypal_csv::import_bad(x) }
}
/// The file the output goes to: the one that was named, or the one named by its path with the namespace put in.
pub open spec fn out_file(c: Command, ns: Seq<char>, fs: FileSpec) -> bool {
    if !c.substitute_output_path { fs == c.output }
    else { c.output matches FileSpec::Path(p) && path_text(p) is Some && fs == FileSpec::Path(text_path(replaced(path_text(p)->0, "%FP_NS%"@, ns))) }
}
pub open spec fn journal_of(i: Import, l: Ledger) -> bool { l.items@ == as_items(i.transactions@) }
/// Only what the import gave is written, and only to that file.
pub axiom fn ax_may_import(c: Command, i: Import, fs: FileSpec, l: Ledger)
    requires asked(c), gives(c.importer, i), out_file(c, i.user_fp_namespace@, fs), journal_of(i, l),
    ensures filespec::may_write(fs, l);
pub open spec fn import_done(c: Command, i: Import, fs: FileSpec, l: Ledger) -> bool {
    gives(c.importer, i) && out_file(c, i.user_fp_namespace@, fs) && journal_of(i, l) && filespec::wrote(fs, l)
}
pub open spec fn path_in(fs: FileSpec) -> PathBuf { match fs { FileSpec::Path(p) => p, _ => arbitrary() } }
/// Options that do not go with standard output, or with a path that is not text.
pub open spec fn bad_options(c: Command) -> bool {
    (c.substitute_output_path || c.make_parent_dirs) && c.output is Stdio
    || c.substitute_output_path && c.output is Path && path_text(path_in(c.output)) is None
}
pub open spec fn out_fails(c: Command, fs: FileSpec) -> bool {
    (exists|i: Import| #[trigger] gives(c.importer, i) && out_file(c, i.user_fp_namespace@, fs))
    && (filespec::unwritable(fs) || c.make_parent_dirs && fs is Path && no_dir(path_in(fs)))
}
@fn Importer::do_import
@ret r
@spec
    ensures r matches Ok(i) ==> gives(*self, i), r is Err ==> bad(*self),
@props C11 C12 C13 C14 C18
@fn Importer::get_importer
@ret r
@spec
    ensures
        forall|i: Import| #[trigger] r.gives(i) ==> gives(*self, i),
        r.bad() ==> bad(*self),
@props C11 C12 C13 C14 C18
@fn Command::run
@ret r
@spec
    requires asked(*self),
    ensures
        r is Ok ==> exists|i: Import, fs: FileSpec, l: Ledger| #[trigger] import_done(*self, i, fs, l),
        r is Err ==> (bad(self.importer) || bad_options(*self) || exists|fs: FileSpec| #[trigger] out_fails(*self, fs)),
@replace `new_p.into()`
crate::vx::into_path(new_p)
@replace `std::fs::create_dir_all(parent).map_err(anyhow::Error::from)?`
crate::vx::make_dirs(parent)?
@sbefore `if self.make_parent_dirs`
    let ghost i0 = import;
    proof { assert(gives(self.importer, i0)); assert(out_file(*self, i0.user_fp_namespace@, output)); }
    proof { assert(filespec::unwritable(output) || self.make_parent_dirs && output is Path && no_dir(path_in(output)) ==> out_fails(*self, output)); }
@sbefore `filespec::write_ledger_file(`
    proof { ax_may_import(*self, i0, output, ledger); }
@tail
    proof { if vx_t is Ok { assert(import_done(*self, i0, output, ledger)); } }
@props C11 C12 C13 C14 C18 C20
