% One point at which a call may run out of memory.
function sim_fault()
  global SIM_AT SIM_COUNT
  SIM_COUNT++;
  if SIM_AT > 0 && SIM_COUNT == SIM_AT
    error("Octave:bad-alloc", "out of memory or dimension too large for Octave's index type");
  end
end
