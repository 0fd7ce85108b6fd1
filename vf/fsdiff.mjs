import esbuild from "/opt/veriftools/node/node_modules/esbuild/lib/main.js";
import fs from "fs"; import path from "path"; import os from "os";
const code = esbuild.transformSync(fs.readFileSync("/verif/models/fs.ts","utf8"),{loader:"ts",format:"esm"}).code;
fs.writeFileSync("/tmp/fsm.mjs",code);
const base = fs.mkdtempSync(path.join(os.tmpdir(),"fsd-"));
let bad=0;
const rnd=(n)=>Math.floor(Math.random()*n);
for(let it=0;it<3000;it++){
  const root=path.join(base,"r"+it); fs.mkdirSync(root);
  const m = await import("/tmp/fsm.mjs?"+it); const d=m.disk; 
  let q=root; while(!d.dirs.has(q)){d.dirs.add(q);q=path.dirname(q);}
  const names=["a","b","c"];
  const P=()=>{let n=1+rnd(3),p=root;for(let i=0;i<n;i++)p+="/"+(names[rnd(3)]);return p.startsWith(root)&&path.normalize(p).startsWith(root+"/")?p:root+"/a";};
  const log=[];
  for(let k=0;k<12;k++){
    const op=rnd(9), p=P(), t=P(); let A,B; const tr=(f)=>{try{const r=f();return ["ok",r]}catch(e){return ["err",e.code]}};
    const run=(F,link)=>{switch(op){
      case 0:return tr(()=>(F.mkdirSync(p,{recursive:true}),0));
      case 1:return tr(()=>(F.mkdirSync(p),0));
      case 2:return tr(()=>(F.writeFileSync(p,"x"+k),0));
      case 3:return tr(()=>F.readFileSync(p,"utf8"));
      case 4:return tr(()=>{const s=F.lstatSync(p);return [s.isFile(),s.isDirectory(),s.isSymbolicLink()].join()});
      case 5:return tr(()=>{const s=F.statSync(p);return [s.isFile(),s.isDirectory(),s.isSymbolicLink()].join()});
      case 6:return tr(()=>F.realpathSync(p));
      case 7:return tr(()=>(F.copyFileSync(t,p),0));
      case 8:return link();
    }};
    if(op===8){ let okl=false; try{okl=fs.existsSync(path.dirname(path.normalize(p)))&&fs.realpathSync(path.dirname(path.normalize(p)))===path.dirname(path.normalize(p))&&!fs.lstatSync(path.normalize(p),{throwIfNoEntry:false});}catch{} if(okl){fs.symlinkSync(path.normalize(t),path.normalize(p));d.link(path.normalize(p),path.normalize(t));log.push("link "+p+" -> "+t);} continue;}
    A=run(fs);B=run(m);log.push(op+" "+p+" "+t+" "+JSON.stringify([A,B]));
    if(A[0]!==B[0]||(A[0]==="ok"&&A[1]!==B[1])){bad++; if(bad<6)console.log(log.join("\n").replaceAll(root,""),"\n---"); break;}
  }
  fs.rmSync(root,{recursive:true});
}
fs.rmSync(base,{recursive:true});
console.log("bad",bad);
