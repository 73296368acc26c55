import json
N = {
'C01': ('Verus proves the real encoder (Rm/Mode/Disp/Scale, rex*, modrm, sib, emit_disp_imm, encode, enc_*) emits exactly enc_bytes(...) for all opcodes, registers, addressing modes, displacements and immediates, and panics exactly on the illegal combinations.', ['JitMemory::encode', 'Rm::rip_ind_from']),
'C02': ('For each of ~600 integer mnemonic/operand forms, the real macro is expanded and Verus proves that the generated code appends one of the SDM encodings of that form, for all registers, displacements, labels and immediates.', []),
'C03': ('As C02, for the SSE forms.', []),
'C04': ('As C02, for branches, setcc/cmovcc under every condition alias, calls and stack instructions.', []),
'C05': ('As C02, for forms with an immediate: for all 64-bit values the emitted immediate sign-extends to the value, and the statement panics exactly if the value does not fit.', []),
'C06': ('Verus proves reference recording (save_reloc, emit_disp_imm, enc_d, save_absolute_reloc) and resolution (fill_relocs, finalize; loop invariants over all labels and references) against spec functions for all states satisfying the representation invariant.', ['JitMemory::fill_relocs', 'JitMemory::finalize']),
'C07': ('Verus proves pool requests and placement (resolve_constants, resolve_data) against spec functions for all pools and states.', ['JitMemory::resolve_constants', 'JitMemory::resolve_data']),
'C08': ('Verus proves emission, write and align primitives with full frames: the whole abstract buffer after the call equals the old one with the little-endian bytes spliced in.', ['MemPage::emitq', 'JitMemory::emit']),
'C09': ('Verus proves every raw access is inside the region (precondition of raw_byte/raw_byte_mut/raw_slice), that a call only returns if it fits, and (strict) never panics if it fits.', ['IndexMut<Pos> for MemPage::index_mut']),
'C10': ('Verus proves label creation, binding and all address queries against the label table view, with frames.', ['Labels::new_label', 'JitMemory::get_label_address']),
'C11': ('Verus proves the block records, code length and slices produced by finalize/as_slice/select_page.', ['JitMemory::finalize', 'JitMemory::as_slice']),
'C12': ('Verus proves apply_jmp_patch* store exactly the four displacement bytes with the right value, and CodePtr arithmetic/ordering agree with address arithmetic.', ['JitMemory::apply_jmp_patch_address']),
'C13': ('For every operand spelling in every operand position (700 generated statements, plus multi-statement sequences) the real macro is expanded and Verus proves the generated code equals the denotation for all values of the Rust expressions; statements that form no instruction are checked to be refused (enumerated list).', []),
'C14': ('Verus proves JitMemory::new against a logged allocator/protect interface (adjacent disjoint regions, protections) and include() for all pointers and selections.', ['JitMemory::new', 'JitMemory::include']),
}
common = ' Assumes: Verus/Z3, the listed extraction rules (raw pointers as addresses, panics as divergence), vstd specs; a function outside the verifier\'s reach after a change is covered by a bounded native search, labelled so in the evidence.'
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo. Each check is self-contained: it builds the extractor and the native replay crate in /verif/build/<id>.'}
for p, (n, th) in N.items():
    c = {'property': p, 'quick_cmd': 'python3 tools/check.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py %s thorough' % p,
         'evidence_file': 'evidence/%s.json' % p, 'technique': 'contract-based deductive verification (Verus) of the mechanically extracted code; native replay for counterexamples', 'level': 'proof', 'level_note': n + common}
    if th: c['theorems'] = th
    m['checks'].append(c)
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
