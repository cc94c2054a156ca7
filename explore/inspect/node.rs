
// ---- appended by /verif (inspection copy only) ----
impl<K: Ord, V> Root<K, V> {
    pub fn verif_check(&self) -> Result<usize, alloc::string::String> {
        if self.is_shared_root() {
            if self.height != 0 { return Err(alloc::format!("the shared empty root has height {}", self.height)); }
            return Ok(0);
        }
        let mut n = 0;
        let mut prev: Option<*const K> = None;
        unsafe {
            let p = self.node.as_ptr().as_ptr() as *const LeafNode<K, V>;
            if !(*p).parent.is_null() { return Err("the root has a parent".into()); }
            verif_walk(p, self.height, true, &mut prev, &mut n)?;
        }
        Ok(n)
    }
}
unsafe fn verif_walk<K: Ord, V>(p: *const LeafNode<K, V>, height: usize, root: bool, prev: &mut Option<*const K>, n: &mut usize) -> Result<(), alloc::string::String> {
    let len = (*p).len as usize;
    if len > CAPACITY { return Err(alloc::format!("a node at height {} holds {} entries", height, len)); }
    if !root && len < 4 { return Err(alloc::format!("a node at height {} that is not the root holds only {} entries", height, len)); }
    if root && height > 0 && len < 1 { return Err(alloc::format!("an inner root at height {} holds no entry", height)); }
    for i in 0..=len {
        if height > 0 {
            let inner = p as *const InternalNode<K, V>;
            let child = (*(*inner).edges[i].as_ptr()).as_ptr().as_ptr() as *const LeafNode<K, V>;
            if (*child).parent != inner { return Err(alloc::format!("child {} of a node at height {} records another parent", i, height)); }
            if *(*child).parent_idx.as_ptr() as usize != i { return Err(alloc::format!("child {} of a node at height {} records position {}", i, height, *(*child).parent_idx.as_ptr())); }
            verif_walk(child, height - 1, false, prev, n)?;
        }
        if i < len {
            let k = (*p).keys[i].as_ptr();
            if let Some(q) = *prev { if *q >= *k { return Err(alloc::format!("keys are not strictly increasing at height {}", height)); } }
            *prev = Some(k);
            *n += 1;
        }
    }
    Ok(())
}
