@// Values as they are printed for debugging: whatever the text, printing them does not panic.
@mod object::blob src=src/object/blob.rs
use crate::shim::fmt;
@fn <fmt::Debug for Blob>::fmt ;; impl=~Blob as=fmt_debug
    requires self.wf()
@end
@mod object::tag src=src/object/tag.rs
use crate::shim::fmt;
@fn <fmt::Debug for Tag>::fmt ;; impl=~Tag as=fmt_debug
    requires self.wf()
@end
@mod object::commit src=src/object/commit.rs
use crate::shim::fmt;
@fn <fmt::Debug for Commit>::fmt ;; impl=~Commit as=fmt_debug
    requires self.wf()
@end
@fn <fmt::Debug for Signature>::fmt ;; impl=~Signature<'_> as=fmt_debug
    requires self.wf()
@end
@mod object::tree src=src/object/tree.rs
use crate::shim::fmt;
@fn <fmt::Debug for Tree>::fmt ;; impl=~Tree as=fmt_debug
    requires self.wf()
@end
@fn <fmt::Debug for TreeEntry>::fmt ;; impl=~TreeEntry<'_> as=fmt_debug
    requires self.wf()
@end
@mod reference::symbolic src=src/reference/symbolic.rs
use crate::shim::fmt;
@fn <fmt::Debug for Symbolic>::fmt ;; impl=~Symbolic as=fmt_debug
@end
@mod object::database::packed::index src=src/object/database/packed/index.rs
use crate::shim::fmt;
@fn <fmt::Debug for IndexFile>::fmt ;; impl=~IndexFile as=fmt_debug
    requires self.wf()
@end
@mod object::database::packed::pack src=src/object/database/packed/pack.rs
use crate::shim::fmt;
@fn <fmt::Debug for PackFile>::fmt ;; impl=~PackFile as=fmt_debug
@end
@mod shim
/// an iterator over these values, which are there already, is the vector of them (R14)
pub trait VFromIter<T>: Sized {
    spec fn of_seq(s: Seq<T>, r: Self) -> bool;
    fn vfrom_vec(v: Vec<T>) -> (r: Self) ensures Self::of_seq(v@, r);
}
impl<T> VFromIter<T> for Vec<T> {
    open spec fn of_seq(s: Seq<T>, r: Vec<T>) -> bool { r@ == s }
    fn vfrom_vec(v: Vec<T>) -> (r: Vec<T>) { v }
}
pub trait VCollect<T>: Sized {
    spec fn items(self) -> Seq<T>;
    fn collect<C: VFromIter<T>>(self) -> (r: C) ensures C::of_seq(self.items(), r);
}
impl<T> VCollect<T> for Vec<T> {
    open spec fn items(self) -> Seq<T> { self@ }
    fn collect<C: VFromIter<T>>(self) -> (r: C) { C::vfrom_vec(self) }
}
