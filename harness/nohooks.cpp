bool hooks_compiled_in() { return false; }
