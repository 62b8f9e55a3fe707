impl Ball {
    /// Proof helper: makes the private function visible.
    pub fn shadow_recip(self) -> Ball {
        self.recip()
    }
}
