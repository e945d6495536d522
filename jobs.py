# Jobs per property.  One file per concern would be overkill: each entry names the harness, its bounds and its budget.
from jobdefs import PROPS
