mk () 
{ 
    mkdir -p $1;
    git -C /repo diff > $1/patch.diff;
    git -C /repo checkout -q -- .;
    cp ../bin/demo_tmpl.sh $1/demo.sh;
    python3 -c "import json,sys;json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open(sys.argv[1]+'/meta.json','w'))" "$1" "$2" "$3" "$4";
    wc -l $1/patch.diff
}
