% Stands in for Octave's ones, which may run out of memory here.
function varargout = ones(varargin)
  sim_fault();
  n = nargout + (nargout == 0);
  [varargout{1:n}] = builtin("ones", varargin{:});
end
