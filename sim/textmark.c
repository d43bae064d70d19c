void sim_text_mark (void) {}
