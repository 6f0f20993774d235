void reg_mutex(); void reg_rwlock(); void reg_timed(); void reg_cap(); void reg_death(); void reg_threads(); void reg_cond(); void reg_fork(); void reg_init(); void reg_conf(); void reg_nomap(); void reg_rcsv(); void reg_midcall(); void reg_kernel(); void reg_diag(); void reg_progress(); void reg_residue(); void reg_fault();
void reg_all(){ reg_mutex(); reg_rwlock(); reg_timed(); reg_cap(); reg_death(); reg_threads(); reg_cond(); reg_fork(); reg_init(); reg_conf(); reg_nomap(); reg_rcsv(); reg_midcall(); reg_kernel(); reg_diag(); reg_progress(); reg_residue(); reg_fault(); }
