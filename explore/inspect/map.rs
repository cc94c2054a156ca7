
// ---- appended by /verif (inspection copy only) ----
impl<K: Ord, V> BTreeMap<K, V> {
    pub fn verif_check(&self) -> Result<(), alloc::string::String> {
        let n = self.root.verif_check()?;
        if n != self.length { return Err(alloc::format!("the length says {} and the tree holds {}", self.length, n)); }
        Ok(())
    }
}
