% Stands in for Octave's exp, which may run out of memory here.
function varargout = exp(varargin)
  sim_fault();
  n = nargout + (nargout == 0);
  [varargout{1:n}] = builtin("exp", varargin{:});
end
