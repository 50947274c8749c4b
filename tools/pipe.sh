# extract /repo's code into .build/norm.rs (what every check does first)
cd /verif && python3 -c "
import sys; sys.path.insert(0, 'tools'); import check; check.extract()"; wc -l .build/norm.rs
