% Stands in for Octave's sin, which may run out of memory here.
function varargout = sin(varargin)
  sim_fault();
  n = nargout + (nargout == 0);
  [varargout{1:n}] = builtin("sin", varargin{:});
end
