@file importers/tesseract.rs
@pubfields Record
@wrap Document Page Block Paragraph Line Word Bounds
@wrapimpl From<Record> for Page
@wrapimpl From<Record> for Block
@wrapimpl From<Record> for Paragraph
@wrapimpl From<Record> for Line
@wrapimpl From<Record> for Word
@add
#[verifier::external_type_specification]
pub struct ExTesseractRecord(Record);
/// What a document holds.
pub struct LineV { pub num: i32, pub top: i32, pub height: i32, pub words: Seq<Word> }
pub struct ParV { pub num: i32, pub lines: Seq<LineV> }
pub struct BlockV { pub num: i32, pub pars: Seq<ParV> }
pub struct PageV { pub num: i32, pub blocks: Seq<BlockV> }
pub open spec fn line_v(l: Line) -> LineV { LineV { num: l.num, top: l.top, height: l.height, words: l.words@ } }
pub open spec fn lines_v(s: Seq<Line>) -> Seq<LineV> { s.map_values(|l: Line| line_v(l)) }
pub open spec fn par_v(p: Paragraph) -> ParV { ParV { num: p.num, lines: lines_v(p.lines@) } }
pub open spec fn pars_v(s: Seq<Paragraph>) -> Seq<ParV> { s.map_values(|p: Paragraph| par_v(p)) }
pub open spec fn block_v(b: Block) -> BlockV { BlockV { num: b.num, pars: pars_v(b.paragraphs@) } }
pub open spec fn blocks_v(s: Seq<Block>) -> Seq<BlockV> { s.map_values(|b: Block| block_v(b)) }
pub open spec fn page_v(p: Page) -> PageV { PageV { num: p.num, blocks: blocks_v(p.blocks@) } }
pub open spec fn pages_v(s: Seq<Page>) -> Seq<PageV> { s.map_values(|p: Page| page_v(p)) }
/// The next of so many things, numbered from 1; one of so many things.
pub open spec fn next(n: i32, len: nat) -> bool { n == len + 1 }
pub open spec fn within(n: i32, len: nat) -> bool { 1 <= n <= len }
pub open spec fn put_word(l: LineV, r: Record) -> Option<LineV> {
    if next(r.word_num, l.words.len()) { Some(LineV { words: l.words.push(Word { num: r.word_num, left: r.left, width: r.width, text: r.text }), ..l }) } else { None }
}
pub open spec fn put_line(p: ParV, r: Record) -> Option<ParV> {
    if r.level == 4 {
        if next(r.line_num, p.lines.len()) { Some(ParV { lines: p.lines.push(LineV { num: r.line_num, top: r.top, height: r.height, words: Seq::empty() }), ..p }) } else { None }
    } else if within(r.line_num, p.lines.len()) {
        match put_word(p.lines[r.line_num - 1], r) { Some(l) => Some(ParV { lines: p.lines.update(r.line_num - 1, l), ..p }), None => None }
    } else { None }
}
pub open spec fn put_par(b: BlockV, r: Record) -> Option<BlockV> {
    if r.level == 3 {
        if next(r.par_num, b.pars.len()) { Some(BlockV { pars: b.pars.push(ParV { num: r.par_num, lines: Seq::empty() }), ..b }) } else { None }
    } else if within(r.par_num, b.pars.len()) {
        match put_line(b.pars[r.par_num - 1], r) { Some(p) => Some(BlockV { pars: b.pars.update(r.par_num - 1, p), ..b }), None => None }
    } else { None }
}
pub open spec fn put_block(g: PageV, r: Record) -> Option<PageV> {
    if r.level == 2 {
        if next(r.block_num, g.blocks.len()) { Some(PageV { blocks: g.blocks.push(BlockV { num: r.block_num, pars: Seq::empty() }), ..g }) } else { None }
    } else if within(r.block_num, g.blocks.len()) {
        match put_par(g.blocks[r.block_num - 1], r) { Some(b) => Some(PageV { blocks: g.blocks.update(r.block_num - 1, b), ..g }), None => None }
    } else { None }
}
/// What a document is once a record has been added, if the record has its place there.
pub open spec fn put(d: Seq<PageV>, r: Record) -> Option<Seq<PageV>> {
    if r.level == 1 {
        if next(r.page_num, d.len()) { Some(d.push(PageV { num: r.page_num, blocks: Seq::empty() })) } else { None }
    } else if 2 <= r.level <= 5 && within(r.page_num, d.len()) {
        match put_block(d[r.page_num - 1], r) { Some(g) => Some(d.update(r.page_num - 1, g)), None => None }
    } else { None }
}
pub type TsvRow = Result<Record, csv::Error>;
/// The document of the first n rows.
pub open spec fn doc_of(rows: Seq<TsvRow>, n: int) -> Option<Seq<PageV>>
    decreases n
{ if n <= 0 { Some(Seq::empty()) } else if rows[n - 1] is Err { None } else { match doc_of(rows, n - 1) { Some(d) => put(d, rows[n - 1]->Ok_0), None => None } } }
/// Once a row has no place, no document comes out.
pub proof fn lemma_none(rows: Seq<TsvRow>, i: int, n: int)
    requires 0 <= i <= n, doc_of(rows, i) is None,
    ensures doc_of(rows, n) is None,
    decreases n - i,
{ if i < n { lemma_none(rows, i, n - 1); } }
impl vstd::std_specs::convert::FromSpecImpl<Record> for Page { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(r: Record) -> Page { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<Record> for Block { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(r: Record) -> Block { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<Record> for Paragraph { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(r: Record) -> Paragraph { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<Record> for Line { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(r: Record) -> Line { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<Record> for Word { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(r: Record) -> Word { arbitrary() } }
/// All paragraphs, in reading order.
pub open spec fn paras_in(bs: Seq<Block>, n: int) -> Seq<Paragraph>
    decreases n
{ if n <= 0 { Seq::empty() } else { paras_in(bs, n - 1) + bs[n - 1].paragraphs@ } }
pub open spec fn paras(ps: Seq<Page>, n: int) -> Seq<Paragraph>
    decreases n
{ if n <= 0 { Seq::empty() } else { paras(ps, n - 1) + paras_in(ps[n - 1].blocks@, ps[n - 1].blocks@.len() as int) } }
pub open spec fn same_all(a: Seq<&Paragraph>, b: Seq<Paragraph>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> *(#[trigger] a[i]) == b[i] }
@fn Document::iter_paragraphs
@eager &Paragraph
@ret r
@spec
    ensures same_all(r@, paras(self.pages@, self.pages@.len() as int)),
@chain 0 vec &Paragraph
    invariant
        vx_it.seq().unref() == self.pages@,
        same_all(vx_acc@, paras(self.pages@, vx_it.index() as int)),
---
    let ghost gi = vx_it.index() as int; let ghost gs = self.pages@; let ghost a0 = paras(gs, gi);
    proof { assert(vx_it.seq().unref()[gi] == *vx_it.seq()[gi]); assert(*vx_x == gs[gi]); }
---
    proof { assert(paras(gs, gi + 1) =~= a0 + paras_in(gs[gi].blocks@, gs[gi].blocks@.len() as int)); }
+++
    invariant
        vx_jt.seq().unref() == gs[gi].blocks@, 0 <= gi < gs.len(),
        same_all(vx_acc@, a0 + paras_in(gs[gi].blocks@, vx_jt.index() as int)),
---
    let ghost bi = vx_jt.index() as int; let ghost bs = gs[gi].blocks@; let ghost a1 = a0 + paras_in(bs, bi);
    proof { assert(vx_jt.seq().unref()[bi] == *vx_jt.seq()[bi]); }
---
    proof { assert(a0 + paras_in(bs, bi + 1) =~= a1 + bs[bi].paragraphs@); }
+++
    invariant
        vx_jt1.seq().unref() == bs[bi].paragraphs@, 0 <= bi < bs.len(),
        same_all(vx_acc@, a1 + bs[bi].paragraphs@.take(vx_jt1.index() as int)),
---
    let ghost pi = vx_jt1.index() as int;
    proof { assert(vx_jt1.seq().unref()[pi] == *vx_jt1.seq()[pi]); }
---
    proof { assert(bs[bi].paragraphs@.take(pi + 1) =~= bs[bi].paragraphs@.take(pi).push(bs[bi].paragraphs@[pi])); }
@props C14
@fn Document::new
@ret r
@spec
    ensures r.pages@.len() == 0,
@props C14
@fn Document::from_tsv_reader
@ret r
@spec
    ensures
        r is Ok <==> doc_of(tsv_of::<R, Record>($1), tsv_of::<R, Record>($1).len() as int) is Some,
        r matches Ok(d) ==> Some(pages_v(d.pages@)) == doc_of(tsv_of::<R, Record>($1), tsv_of::<R, Record>($1).len() as int),
@begin
    let ghost rows = tsv_of::<R, Record>($1);
@replace `csv::ReaderBuilder::new() .delimiter(b'\t') .has_headers(true) .trim(csv::Trim::All) .from_reader(reader)`
crate::vx::tsv_table::<R, Record>(reader)
@after `let mut doc = Document::new();`
    proof { assert(pages_v(doc.pages@) =~= Seq::<PageV>::empty()); }
@replace `r.into_deserialize()`
r
@loop 0
    invariant
        it.seq() == rows, rows == tsv_of::<R, Record>($1),
        doc_of(rows, it.index() as int) == Some(pages_v(doc.pages@)),
@loopbegin 0
    let ghost i = it.index() as int;
    proof {
        assert(rows[i] == record_res && i < rows.len());
        if record_res is Err { assert(doc_of(rows, i + 1) is None); lemma_none(rows, i + 1, rows.len() as int); }
        else if put(pages_v(doc.pages@), record_res->Ok_0) is None { assert(doc_of(rows, i + 1) is None); lemma_none(rows, i + 1, rows.len() as int); }
        assert(doc_of(rows, i + 1) == (if record_res is Err { None } else { put(pages_v(doc.pages@), record_res->Ok_0) }));
    }
@props C14
@fn Document::page_mut
@ret r
@spec
    ensures
        r is Ok <==> within($1.page_num, old(self).pages@.len()),
        r matches Ok(p) ==> *p == old(self).pages@[$1.page_num - 1] && final(self).pages@ == old(self).pages@.update($1.page_num - 1, *final(p)),
        r is Err ==> final(self).pages@ == old(self).pages@,
@props C14
@fn Document::block_mut
@lower and_then
@ret r
@spec
    ensures
        r is Ok <==> within($1.page_num, old(self).pages@.len()) && within($1.block_num, old(self).pages@[$1.page_num - 1].blocks@.len()),
        r matches Ok(b) ==> {
            let g = old(self).pages@[$1.page_num - 1]; let h = final(self).pages@[$1.page_num - 1];
            &&& *b == g.blocks@[$1.block_num - 1]
            &&& h.num == g.num && h.blocks@ == g.blocks@.update($1.block_num - 1, *final(b))
            &&& final(self).pages@ == old(self).pages@.update($1.page_num - 1, h)
        },
@props C14
@fn Document::paragraph_mut
@lower and_then
@ret r
@spec
    ensures
        r is Ok <==> within($1.page_num, old(self).pages@.len()) && within($1.block_num, old(self).pages@[$1.page_num - 1].blocks@.len())
            && within($1.par_num, old(self).pages@[$1.page_num - 1].blocks@[$1.block_num - 1].paragraphs@.len()),
        r matches Ok(p) ==> {
            let g = old(self).pages@[$1.page_num - 1]; let h = final(self).pages@[$1.page_num - 1];
            let b = g.blocks@[$1.block_num - 1]; let c = h.blocks@[$1.block_num - 1];
            &&& *p == b.paragraphs@[$1.par_num - 1]
            &&& c.num == b.num && c.paragraphs@ == b.paragraphs@.update($1.par_num - 1, *final(p))
            &&& h.num == g.num && h.blocks@ == g.blocks@.update($1.block_num - 1, c)
            &&& final(self).pages@ == old(self).pages@.update($1.page_num - 1, h)
        },
@props C14
@fn Document::line_mut
@lower and_then
@ret r
@spec
    ensures
        r is Ok <==> within($1.page_num, old(self).pages@.len()) && within($1.block_num, old(self).pages@[$1.page_num - 1].blocks@.len())
            && within($1.par_num, old(self).pages@[$1.page_num - 1].blocks@[$1.block_num - 1].paragraphs@.len())
            && within($1.line_num, old(self).pages@[$1.page_num - 1].blocks@[$1.block_num - 1].paragraphs@[$1.par_num - 1].lines@.len()),
        r matches Ok(l) ==> {
            let g = old(self).pages@[$1.page_num - 1]; let h = final(self).pages@[$1.page_num - 1];
            let b = g.blocks@[$1.block_num - 1]; let c = h.blocks@[$1.block_num - 1];
            let p = b.paragraphs@[$1.par_num - 1]; let q = c.paragraphs@[$1.par_num - 1];
            &&& *l == p.lines@[$1.line_num - 1]
            &&& q.num == p.num && q.lines@ == p.lines@.update($1.line_num - 1, *final(l))
            &&& c.num == b.num && c.paragraphs@ == b.paragraphs@.update($1.par_num - 1, q)
            &&& h.num == g.num && h.blocks@ == g.blocks@.update($1.block_num - 1, c)
            &&& final(self).pages@ == old(self).pages@.update($1.page_num - 1, h)
        },
@props C14
@fn Document::feed_record
@ret r
@spec
    ensures
        r is Ok <==> put(pages_v(old(self).pages@), $1) is Some,
        r is Ok ==> Some(pages_v(final(self).pages@)) == put(pages_v(old(self).pages@), $1),
@begin
    let ghost rec = $1;
    let ghost d0 = self.pages@;
@before `Ok(())`
    proof {
        let d1 = self.pages@;
        if rec.level == 1 {
            assert(d1 =~= d0.push(d1.last()));
            assert(blocks_v(d1.last().blocks@) =~= Seq::<BlockV>::empty());
            assert(pages_v(d1) =~= pages_v(d0).push(page_v(d1.last())));
        } else {
            let i = rec.page_num - 1;
            let g = d0[i]; let h = d1[i];
            assert(pages_v(d1) =~= pages_v(d0).update(i, page_v(h)));
            if rec.level == 2 {
                assert(h.blocks@ =~= g.blocks@.push(h.blocks@.last()));
                assert(pars_v(h.blocks@.last().paragraphs@) =~= Seq::<ParV>::empty());
                assert(blocks_v(h.blocks@) =~= blocks_v(g.blocks@).push(block_v(h.blocks@.last())));
            } else {
                let j = rec.block_num - 1;
                let b = g.blocks@[j]; let c = h.blocks@[j];
                assert(blocks_v(h.blocks@) =~= blocks_v(g.blocks@).update(j, block_v(c)));
                if rec.level == 3 {
                    assert(c.paragraphs@ =~= b.paragraphs@.push(c.paragraphs@.last()));
                    assert(lines_v(c.paragraphs@.last().lines@) =~= Seq::<LineV>::empty());
                    assert(pars_v(c.paragraphs@) =~= pars_v(b.paragraphs@).push(par_v(c.paragraphs@.last())));
                } else {
                    let k = rec.par_num - 1;
                    let p = b.paragraphs@[k]; let q = c.paragraphs@[k];
                    assert(pars_v(c.paragraphs@) =~= pars_v(b.paragraphs@).update(k, par_v(q)));
                    if rec.level == 4 {
                        assert(q.lines@ =~= p.lines@.push(q.lines@.last()));
                        assert(q.lines@.last().words@ =~= Seq::<Word>::empty());
                        assert(lines_v(q.lines@) =~= lines_v(p.lines@).push(line_v(q.lines@.last())));
                    } else {
                        let m = rec.line_num - 1;
                        assert(q.lines@[m].words@ =~= p.lines@[m].words@.push(q.lines@[m].words@.last()));
                        assert(lines_v(q.lines@) =~= lines_v(p.lines@).update(m, line_v(q.lines@[m])));
                    }
                }
            }
        }
    }
@props C14
@fn Word::horiz_bounds
@ret r
@spec
    ensures r.min == self.left, r.max == (if self.left + self.width > i32::MAX { i32::MAX as int } else if self.left + self.width < i32::MIN { i32::MIN as int } else { self.left + self.width }),
@props C14
@fn Bounds::overlaps
@ret r
@spec
    ensures r == (self.max > $1.min && self.min < $1.max),
@props C14
@fn From<Record> for Page::from
@ret r
@spec
    ensures r.num == $1.page_num, r.blocks@.len() == 0,
@props C14
@fn From<Record> for Block::from
@ret r
@spec
    ensures r.num == $1.block_num, r.paragraphs@.len() == 0,
@props C14
@fn From<Record> for Paragraph::from
@ret r
@spec
    ensures r.num == $1.par_num, r.lines@.len() == 0,
@props C14
@fn From<Record> for Line::from
@ret r
@spec
    ensures r.num == $1.line_num, r.top == $1.top, r.height == $1.height, r.words@.len() == 0,
@props C14
@fn From<Record> for Word::from
@ret r
@spec
    ensures r.num == $1.word_num, r.left == $1.left, r.width == $1.width, r.text == $1.text,
@props C14
@fn get_checked_mut
@vecparam 1
@replace `v.get_mut(idx)`
crate::vx::vec_get_mut(v, idx)
@ret r
@spec
    ensures
        r is Ok <==> within($2, old($1)@.len()),
        r matches Ok(x) ==> *x == old($1)@[$2 - 1] && final($1)@ == old($1)@.update($2 - 1, *final(x)),
        r is Err ==> final($1)@ == old($1)@,
@props C14
@fn push_checked
@ret r
@spec
    ensures
        r is Ok <==> next($2, old($1)@.len()),
        r is Ok ==> final($1)@.len() == old($1)@.len() + 1 && final($1)@.drop_last() == old($1)@ && call_ensures(T::from, ($4,), final($1)@.last()),
        r is Err ==> final($1)@ == old($1)@,
@props C14
@fn num_to_idx
@ret r
@spec
    ensures
        r is Ok <==> $1 >= 1,
        r matches Ok(i) ==> i == $1 - 1,
@props C14
