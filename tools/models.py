"""Library models against the libraries: every expression below is evaluated by the engine (python3-vt, terms evaluated at sample
values) and by the real numpy and torch (/opt/venv/bin/python).  Run `python3-vt tools/models.py`; prints what differs or has no model."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# a: 3x4, b: 4x3, c: 3x4, v: 4, w: 4, u: 3, s: scalar, q: 3x3 positive definite, h: 2x3x4
NUMPY = """
np.abs(a)|np.add(a,c)|np.amax(a,axis=0)|np.amin(a,1)|a.max()|a.min(axis=-1,keepdims=True)|np.max(a,axis=(0,1))|np.ptp(a,axis=1)
np.append(v,w)|np.append(a,c,axis=0)|np.array_split(v,2)[1]|np.asarray(v)*2|np.atleast_1d(s)|np.atleast_2d(v)|np.atleast_2d(v).T|np.average(a,axis=1)
np.average(v,weights=w*w)|np.average(a,axis=1,weights=w*w)|np.block([[a],[c]])|np.broadcast_to(v,(3,4))|np.clip(a,-0.5,0.5)|np.clip(a,v,v+1)|a.clip(-0.2,None)
np.column_stack([v,w])|np.concatenate([a,c],axis=1)|np.concatenate((v,w))|np.copy(a)|np.cumsum(v)|np.cumsum(a,axis=1)|np.cumprod(v)|np.diag(q)|np.diag(v)|np.diagonal(q)
np.diff(v)|np.diff(a,axis=0)|np.divide(a,c)|np.dot(a,b)|np.dot(v,w)|np.dot(a,v)|a.dot(b)|a@b|a@v|v@b|np.dstack([a,c])|np.einsum('ij,jk->ik',a,b)
np.einsum('ij,ij->i',a,c)|np.einsum('ij,ij->',a,c)|np.einsum('id,jd->ij',a,c)|np.einsum('ijk,jk->ij',h,a)|np.einsum('...i,i->...',a,v)|np.empty((2,))*0+1|np.exp(a)
np.expand_dims(v,0)|np.expand_dims(a,-1)|np.eye(3)+q|np.fabs(a)|np.flip(v)|np.flip(a,axis=1)|np.fliplr(a)|np.flipud(a)|np.full((2,3),s)|np.full_like(a,s)
np.fmax(a,c)|np.fmin(a,c)|np.hstack([v,w])|np.hstack([a,c])|np.hypot(a,c)|np.identity(3)+q|np.inner(v,w)|np.inner(a,c)|np.kron(v,w)
np.linalg.inv(q)|np.linalg.solve(q,a)|np.linalg.solve(q,u)|np.linalg.norm(v)|np.linalg.norm(a)|np.linalg.norm(a,axis=1)|np.linalg.norm(a[:,None,:]-c[None],axis=-1)|np.linalg.norm(a,axis=0,keepdims=True)
np.linalg.multi_dot([a,b,a])|np.linspace(0,1,5)*s|np.linspace(s,s+1,5)|np.log(np.exp(a))|np.log1p(a*a)|np.expm1(a)|np.matmul(a,b)|np.maximum(a,c)|np.minimum(a,0)|np.mean(a)|np.mean(a,axis=1)|a.mean(0)|np.mean(a,axis=1,keepdims=True)
np.median(v)|np.meshgrid(u,v)[0]|np.moveaxis(h,0,-1)|np.multiply(a,c)|np.multiply(a,v)|np.nan_to_num(a)|np.nanmax(a)|np.negative(a)|np.ones((2,3))*s|np.ones_like(a)*s
np.outer(v,w)|np.pad(v,1)|np.pad(a,((0,0),(1,1)))|np.positive(a)|np.power(a,2)|np.power(np.abs(a),0.5)|a**2|a**3|np.abs(a)**0.5|a**-1|np.prod(v)|np.prod(a,axis=1)|np.ravel(a)|a.ravel(order='F')
np.reciprocal(a)|np.repeat(v,2)|np.repeat(a,2,axis=0)|np.reshape(a,(4,3))|a.reshape(2,-1)|a.reshape(-1)|np.roll(v,1)|np.roll(a,1,axis=1)|np.rollaxis(h,2)|np.rot90(a)
np.sort(v)|np.sort(a,axis=1)|np.split(v,2)[1]|np.sqrt(a*a)|np.square(a)|np.squeeze(a[None])|np.stack([a,c])|np.stack([a,c],axis=-1)|np.std(a)|np.std(a,axis=1)|a.std(axis=1,ddof=1)|np.std(a,axis=0,keepdims=True)
np.subtract(a,v)|np.subtract.outer(v,w)|np.add.outer(v,w)|np.multiply.outer(v,w)|np.sum(a)|np.sum(a,axis=0)|a.sum(axis=1,keepdims=True)|np.sum(h,axis=(0,2))|np.add.reduce(a)|np.add.reduce(a,axis=1)|np.maximum.reduce(a,axis=1)|np.minimum.reduce([v,w])
np.maximum.accumulate(v)|np.swapaxes(h,0,2)|np.take(v,[2,0])|np.take(a,[1,0],axis=1)|np.tensordot(a,b,axes=1)|np.tensordot(a,c,axes=([1],[1]))|np.tensordot(h,a,axes=((1,2),(0,1)))|np.tile(v,(2,1))|np.tile(v,3)|np.trace(q)|np.transpose(a)|np.transpose(h,(2,0,1))|h.transpose(1,2,0)|a.T
np.triu(q)|np.tril(q,-1)|np.true_divide(a,c)|np.var(a)|np.var(a,axis=1,ddof=1)|np.vdot(v,w)|np.vstack([v,w])|np.where(a>0,a,c)|np.where(np.array([True,False,True,True]),a,0)|np.zeros_like(a)+s
np.zeros(3)+u|np.apply_along_axis(lambda r: r.sum(),1,a)|np.apply_along_axis(np.mean,0,a)|np.argsort(v)|np.argmax(v)|np.argmin(a,axis=1)|v[np.argsort(v)]|np.take_along_axis(a,np.argsort(a,axis=1),axis=1)|np.searchsorted(np.sort(v),s)
np.select([a>0.3,a<-0.3],[a,-a],0)|np.vectorize(lambda x: x*x)(a)|np.fromiter((x*2 for x in v),dtype=float)|np.array([x for x in v])|np.array([[x*y for x in u] for y in v])|np.array(list(map(lambda r: r.mean(),a)))
np.r_[v,w]|np.c_[v,w]|np.unravel_index(3,(2,2))[0]|np.ix_([0,1],[1,2])[0]|a[np.ix_([0,1],[1,2])]|a[[0,2]]|a[:,::-1]|a[...,None]|a[None,:,0]|a[-1]|a[1:,::2]|a[np.array([True,False,True])]|np.delete(v,1)|np.insert(v,1,s)
np.all(a>-100)|np.any(a>100)|np.logical_and(a>-9,a<9)|np.logical_and.reduce([v>-9,v<9])|np.logical_or(a>0,a<=0)|np.logical_not(a>50)|np.count_nonzero(a>-50)|np.isfinite(a)|np.isnan(a)|np.isclose(a,a)|np.allclose(a,a)|np.array_equal(a,a)|np.sign(a)|np.greater(a,-9)|np.less_equal(a,9)|np.equal(a,a)
np.exp2(a)|np.float_power(np.abs(a),2)|np.divide(a,c,out=np.zeros_like(a))|np.add(a,c,out=a.copy())|np.exp(a,out=np.empty_like(a))|np.floor(s)|np.round(s*0)|np.ediff1d(v)|np.cov(a)|np.cov(a,ddof=0)|np.piecewise(v,[v<0,v>=0],[lambda x:-x,lambda x:x])|np.sum([x for x in v])|np.sum(a,where=a>-99)|sum(v)|max(v)|min(v)|abs(s)
np.interp(0.5,np.array([0.,1.]),np.array([1.,2.]))*s|np.quantile(v,0.5)|np.percentile(v,50)|np.tri(3)*q|np.ascontiguousarray(a)|np.require(a)|np.array(a,copy=True)|np.array(a,ndmin=3)|np.asarray(a.tolist())|np.full(3,u)|a.flatten()|a.astype(float)|a.astype(np.float64)|a.copy()|a.item(2)|a.tolist()[0]|a.flat[3]|np.trapezoid(v) if hasattr(np,'trapezoid') else 0*s|np.array([a.min(),a.max()])|a.squeeze()|a.swapaxes(0,1)|a.take([0,1],axis=1)|a.repeat(2,axis=1)|a.prod(axis=0)|a.cumsum(axis=0)|a.trace()|a.diagonal()|a.nbytes*0+s|a.ndim+s|a.size*s|len(a)*s|np.size(a)*s|np.ndim(a)*s|np.shape(a)[0]*s
np.unstack(a)[0] if hasattr(np,'unstack') else a[0]|np.linalg.pinv(q)|np.linalg.det(q)|np.lcm(2,3)*s|np.float64(s)|np.float64(2.0)*s|np.cross(u,u+1)|np.logaddexp(v,w)|np.tanh(v)|np.sin(v)|np.cos(a)|np.zeros((2,2),dtype=np.float64)+s|np.nditer is not None and s|np.array([*v,*w])|np.linalg.norm(a,ord=2,axis=1)|np.linalg.norm(v,1)|np.linalg.norm(v,np.inf)|np.triu_indices(3,1)[0]|q[np.triu_indices(3,1)]|q[np.diag_indices(3)]|np.indices((2,2))[0]|np.arange(3)*u|np.arange(0,1,0.25)+s|np.ndindex(2,2) is not None and s|np.linalg.cholesky(q)
cd.cdist(a,c)|cd.cdist(a,c,'sqeuclidean')|cd.cdist(a,c,metric='euclidean')|cd.squareform(cd.pdist(a))|cd.squareform(cd.pdist(a,'sqeuclidean'))|cd.pdist(a)|cd.euclidean(v,w)|cd.sqeuclidean(v,w)|cd.cdist(a,c,'minkowski',p=2)|cd.cdist(a,a)|sl.inv(q)|sl.solve(q,u)|sl.solve(q,a,assume_a='pos')|sl.cho_solve(sl.cho_factor(q),u)|sl.norm(v)|sl.pinv(q)|sl.lu_solve(sl.lu_factor(q),u)|spd.distance_matrix(a,c)|ss.logsumexp(v)|ss.softmax(v)|ss.softmax(a,axis=1)
ip('x=a.copy(); x[0]=1; r=x')|ip('x=a.copy(); x[:,1]+=v[0]; r=x')|ip('x=a.copy(); x*=2; r=x')|ip('x=a.copy(); x/=c; r=x')|ip('x=a.copy(); x**=2; r=x')|ip('x=q.copy(); np.fill_diagonal(x,0); r=x')|ip('x=q.copy(); x[np.diag_indices(3)]+=s; r=x')|ip('x=q.copy(); x.flat[::4]+=s; r=x')|ip('x=a.copy(); np.copyto(x,c); r=x')|ip('x=a.copy(); x[x>0]=0; r=x')|ip('x=a.copy(); np.add.at(x,([0,0],[1,1]),s); r=x')|ip('x=np.zeros(3); x+=u; r=x')|ip('x=np.empty((2,4)); x[0],x[1]=v,w; r=x')|ip('x=a.copy(); np.putmask(x,x>0,0); r=x')|ip('x=a.copy(); x.sort(axis=1); r=x')|ip('x=v.copy(); x.fill(s); r=x')|ip('x=[]\\nfor i in range(3): x.append(a[i]*2)\\nr=np.array(x)')|ip('x=np.zeros((3,4))\\nfor i,row in enumerate(a): x[i]=row\\nr=x')|ip('x=np.zeros((3,4))\\nfor i,j in np.ndindex(3,4): x[i,j]=a[i,j]\\nr=x')|ip('x=np.zeros((3,4))\\nfor (i,j),e in np.ndenumerate(a): x[i,j]=e\\nr=x')|ip('x=a.T.copy(); x-=c.T; r=x')|ip('x=a.copy(); x[1:3,...]=c[0]; r=x')|ip('x=a.copy(); y=x[0]; y[:]=s; r=x')|ip('x=a.copy(); np.multiply(x,2,out=x); r=x')|ip('x=a.copy(); np.subtract(x,c,x); r=x')|ip('with np.errstate(all=\"ignore\"): r=a/c')|ip('x=np.zeros(4); np.dot(a[0],np.diag(w),out=x); r=x')|ip('x=a.copy(); x.resize((4,3)); r=x')|ip('x=a.copy(); x.shape=(4,3); r=x')|ip('x=a.copy(); x[:, [0,1]] = x[:, [1,0]]; r=x')|ip('r=np.array(tuple(zip(v,w)))')|ip('from functools import reduce\\nr=reduce(np.minimum,[v,w])')|ip('import operator\\nr=sum(map(operator.mul,v,w))')|ip('import math\\nr=np.array([math.sqrt(abs(x)) for x in v])')|ip('import math\\nr=np.array([math.exp(x) for x in v])')|ip('import math\\nr=math.fsum(v)')|ip('import math\\nr=math.prod(v)')|ip('import math\\nr=math.hypot(v[0],v[1])')|ip('import math\\nr=math.pow(v[0],2)')|ip('import math\\nr=math.dist(v,w)')|ip('import math\\nr=math.fabs(s)')|ip('import math\\nr=math.floor(s)')|ip('import itertools\\nr=np.array([x*y for x,y in itertools.product(v,w)])')|ip('r=np.array(list(itertools_acc(v)))')
"""
TORCH = """
torch.abs(a)|torch.add(a,c)|torch.add(a,c,alpha=2)|torch.sub(a,c)|torch.addcdiv(a,c,c,value=2)|torch.addcmul(a,c,c)|torch.addmm(q,a,b)|torch.addmv(u,a,v)|torch.addr(a,u,v)|torch.all(a>-9)|torch.any(a>9)|torch.amax(a,dim=0)|torch.amin(a,1)|torch.aminmax(a).min|torch.aminmax(a,dim=1).max
torch.arange(3)*u|torch.argmax(v)|torch.argmin(a,dim=1)|torch.argsort(v)|torch.as_tensor(v)|torch.asarray(v)|torch.atleast_2d(v)|torch.bmm(h,h.transpose(1,2))|torch.baddbmm(torch.zeros(2,3,3,dtype=torch.float64),h,h.transpose(1,2))|torch.broadcast_to(v,(3,4))|torch.cat([a,c])|torch.cat((a,c),dim=1)|torch.cat((a,c),-1)|torch.concat([v,w])|torch.concatenate([v,w])|torch.cdist(a,c)|torch.cdist(a,c)**2|torch.cdist(a,c,p=2.0)
torch.chunk(v,2)[0]|torch.clamp(a,-0.5,0.5)|torch.clamp(a,min=0)|torch.clamp_min(a,0)|torch.clamp_max(a,0)|torch.clip(a,-1,1)|torch.clone(a)|torch.column_stack([v,w])|torch.cumsum(v,0)|torch.cumprod(v,0)|torch.diag(v)|torch.diag(q)|torch.diagonal(q)|torch.diag_embed(v)|torch.dist(v,w)|torch.div(a,c)|torch.dot(v,w)|torch.dstack([a,c])|torch.einsum('ij,jk->ik',a,b)|torch.einsum('id,jd->ij',a,c)|torch.einsum('ij,ij->i',a,c)|torch.einsum('nmd,md->nm',h,a)
torch.empty(2,3,dtype=torch.float64).fill_(1)*s|torch.empty_like(a).copy_(c)|torch.eq(a,a)|torch.exp(a)|torch.eye(3,dtype=torch.float64)+q|torch.flatten(a)|torch.flip(v,[0])|torch.fliplr(a)|torch.full((2,3),2.0,dtype=torch.float64)*s|torch.full_like(a,2.0)|torch.gather(a,1,torch.argsort(a,dim=1))|torch.ge(a,-9)|torch.hstack([a,c])|torch.hypot(a,c)|torch.index_select(a,1,torch.tensor([1,0]))|torch.inner(v,w)|torch.inverse(q)|torch.isfinite(a)|torch.isnan(a)|torch.kron(v,w)|torch.lerp(a,c,0.5)|torch.linspace(0,1,5,dtype=torch.float64)*s
torch.log(torch.exp(a))|torch.logical_and(a>-9,a<9)|torch.logical_or(a>-9,a<9)|torch.logsumexp(v,0)|torch.logsumexp(a,dim=1)|torch.lt(a,9)|torch.matmul(a,b)|torch.matmul(a,v)|torch.max(a)|torch.max(a,dim=1).values|torch.max(a,1)[0]|torch.max(a,c)|torch.maximum(a,c)|torch.mean(a)|torch.mean(a,dim=1)|torch.mean(a,1,keepdim=True)|torch.mean(a,axis=0)|torch.meshgrid(u,v,indexing='ij')[0]|torch.min(a)|torch.min(a,dim=0).values|torch.min(a,0)[0]|torch.minimum(a,c)|torch.mm(a,b)|torch.moveaxis(h,0,2)|torch.movedim(h,0,-1)|torch.mul(a,c)|torch.multiply(a,c)|torch.mv(a,v)|torch.narrow(a,1,0,2)|torch.neg(a)|torch.norm(v)|torch.norm(a,dim=1)|torch.norm(a,p=2,dim=1,keepdim=True)|torch.numel(a)*s|torch.ones(2,3,dtype=torch.float64)*s|torch.ones_like(a)*s|torch.outer(v,w)
torch.permute(h,(2,0,1))|torch.pow(a,2)|torch.pow(torch.abs(a),0.5)|torch.prod(v)|torch.prod(a,dim=1)|torch.ravel(a)|torch.reciprocal(a)|torch.repeat_interleave(v,2)|torch.reshape(a,(4,3))|torch.roll(v,1)|torch.roll(a,1,dims=1)|torch.rsqrt(a*a)|torch.softmax(v,0)|torch.softmax(v,dim=-1)|torch.sort(v).values|torch.sort(v)[0]|torch.split(v,2)[1]|torch.sqrt(a*a)|torch.square(a)|torch.squeeze(a[None])|torch.stack([a,c])|torch.stack((a,c),dim=-1)|torch.std(a)|torch.std(a,dim=1)|torch.std(a,dim=1,unbiased=False)|torch.std(a,dim=1,correction=0)|torch.std(a,1,True)|torch.std_mean(a,dim=1)[0]|torch.sum(a)|torch.sum(a,dim=0)|torch.sum(a,1,keepdim=True)|torch.sum(h,dim=(0,2))|torch.sum(a,axis=1)|torch.swapaxes(h,0,1)|torch.t(a)|torch.take(a,torch.tensor([1,2]))|torch.tensor([1.,2.],dtype=torch.float64)*s|torch.tensor(2.0,dtype=torch.float64)*s|torch.tensor(v.tolist(),dtype=torch.float64)|torch.tensor([x.item() for x in v],dtype=torch.float64)
torch.tensordot(a,b,dims=1)|torch.tensordot(a,c,dims=([1],[1]))|torch.tile(v,(2,1))|torch.trace(q)|torch.transpose(a,0,1)|torch.tril(q)|torch.triu(q)|torch.unbind(a)[1]|torch.unsqueeze(v,0)|torch.var(a)|torch.var(a,dim=1)|torch.var_mean(a,dim=0)[0]|torch.var(a,dim=1,unbiased=False)|torch.vstack([v,w])|torch.where(a>0,a,c)|torch.where(a>0,a,torch.zeros_like(a))|torch.where(a>0,a,0.)|torch.zeros(2,3,dtype=torch.float64)+s|torch.zeros_like(a)+s|torch.linalg.inv(q)|torch.linalg.solve(q,a)|torch.linalg.solve(q,u)|torch.linalg.norm(v)|torch.linalg.norm(a,dim=1)|torch.linalg.vector_norm(a,dim=1)|torch.linalg.multi_dot([a,b,a])|torch.linalg.pinv(q)|torch.linalg.diagonal(q)|torch.nn.functional.softmax(v,dim=0)|torch.vdot(v,w)|torch.nansum(a)|torch.log1p(a*a)|torch.expm1(a)|torch.diff(v)|torch.sign(a)|torch.broadcast_tensors(v,a)[0]|torch.from_numpy(a.numpy())*1|torch.special.logsumexp(v,0)|torch.not_equal(a,c)|torch.isclose(a,a)|torch.allclose(a,a)|torch.equal(a,a)|torch.linalg.cholesky(q)|torch.cholesky_inverse(torch.linalg.cholesky(q))|torch.cholesky_solve(u[:,None],torch.linalg.cholesky(q))|torch.nn.functional.pairwise_distance(a,c,eps=0.)|torch.inner(a,c)|torch.cov(a)|torch.median(v[:3])
a.abs()|a.add(c)|a.all()|a.amax(1)|a.amin(dim=0)|a.any()|a.argmax()|a.broadcast_to(3,4)|a.clamp(-1,1)|a.clamp(min=0)|a.clip(-1,1)|a.clone()|a.contiguous()|a.cpu()|a.cumsum(1)|a.detach()|q.diag()|q.diagonal()|a.dim()*s|a.div(c)|v.dot(w)|a.double()|a.eq(a)|a.exp()|v.expand(3,4)|v.expand(3,-1)|v.unsqueeze(0).expand(3,4)|v.expand_as(a)|a.flatten()|a.flip(0)|a.ge(-9)|q.inverse()|a.isfinite()|a.isnan()|s.item()|v[0].item()|a.le(9)|a.log1p() if False else s|a.lt(9)|a.masked_fill(a>0,0.)|a.matmul(b)|a.max()|a.max(1)[0]|a.max(dim=0).values|a.maximum(c)|a.mean()|a.mean(1)|a.mean(dim=0,keepdim=True)|a.min()|a.min(dim=1)[0]|a.minimum(c)|a.mm(b)|a.mul(c)|a.mv(v)|a.neg()|a.new_zeros(3)+u|a.new_ones((2,2))*s|a.new_full((2,),1.0)*s|a.new_empty(2).fill_(1)*s|a.new_tensor([1.,2.])*s|a.ndim*s|a.norm(dim=1)|a.norm()|a.numel()*s|a.numpy()*2|h.permute(2,0,1)|a.pow(2)|a.prod(1)|a.reciprocal()|v.repeat(2,1)|v.repeat_interleave(2)|a.reshape(4,3)|a.reshape(-1)|a.reshape((2,6))|a.reshape_as(c)|a.roll(1,0)|a.select(0,1)|a.shape[0]*s|a.size(0)*s|a.size()[1]*s|a.softmax(1)|a.split(2,dim=1)[0]|a.sqrt() if False else a.abs().sqrt()|a.square()|a.squeeze()|a[None].squeeze(0)|a.std()|a.std(1)|a.std(dim=1,unbiased=False)|a.std(axis=1)|a.sub(c)|a.sum()|a.sum(0)|a.sum(dim=1,keepdim=True)|a.sum(-1)|a.t()|a.T|h.mT|v.tile(2,1)|a.to('cpu')|a.to(torch.float64)|a.to(c)|a.to(device='cpu',dtype=torch.float64)|a.tolist()[0]|a.transpose(0,1)|a.swapaxes(0,1)|a.type(torch.float64)|a.type_as(c)|a.unbind(0)[0]|a.unsqueeze(1)|a.var(1)|a.view(4,3)|a.view(-1)|a.view(2,6)|a.where(a>0,c)|a.logical_not() if False else s|a.cdist(c) if False else s|a.true_divide(c)|a.index_select(0,torch.tensor([1]))|a.nansum()|a.detach().cpu().numpy()*1|a.narrow(0,0,2)|a.addmm(a,torch.eye(4,dtype=torch.float64))|a.outer(v) if False else v.outer(w)|a.diff()|a.movedim(0,1)|a.take(torch.tensor([0,3]))|a.gt(-9)|a.ne(c)|len(a)*s|a.__matmul__(b)|a.rsub(1) if False else 1-a|2/a|a//1*0+s|-a|+a|a%1*0+s|a[a>-99]|a[:,[0,1]]|a[...,-1]|a[0:2,1]|a[None,:,:]|a[torch.tensor([0,1])]|a.is_floating_point()*s|a.stride()[0]*0*s|a.nelement()*s|a.sum().item()|float(a.sum())|a.aminmax().max|a.logsumexp(1)|a.cumprod(1)|a.fliplr()|a.ravel()|a.unflatten(1,(2,2))|a.sum((0,1))|a.std(0,keepdim=True)|a.var(dim=0,correction=0)|a.bool().all()|a.requires_grad_(False)|a.data|a.moveaxis(0,1)
ip('x=a.clone(); x[0]=1; r=x')|ip('x=a.clone(); x+=c; r=x')|ip('x=a.clone(); x.add_(c); r=x')|ip('x=a.clone(); x.add_(c,alpha=2.0); r=x')|ip('x=a.clone(); x.mul_(2); r=x')|ip('x=a.clone(); x.sub_(c); r=x')|ip('x=a.clone(); x.div_(c); r=x')|ip('x=a.clone(); x.copy_(c); r=x')|ip('x=a.clone(); x.fill_(1.0); r=x')|ip('x=a.clone(); x.zero_(); r=x+s')|ip('x=a.clone(); x.exp_(); r=x')|ip('x=a.clone(); x.neg_(); r=x')|ip('x=a.clone(); x.pow_(2); r=x')|ip('x=a.clone(); x.square_(); r=x')|ip('x=a.clone(); x.clamp_(-1,1); r=x')|ip('x=a.clone(); x.abs_(); r=x')|ip('x=a.clone().abs(); x.sqrt_(); r=x')|ip('x=q.clone(); x.fill_diagonal_(0.); r=x')|ip('x=q.clone(); x.diagonal().add_(0.5); r=x')|ip('x=q.clone(); torch.diagonal(x).add_(0.5); r=x')|ip('x=q.clone(); x[range(3),range(3)]+=1; r=x')|ip('x=a.clone(); x.masked_fill_(x>0,0.); r=x')|ip('x=a.clone(); x.unsqueeze_(0); r=x')|ip('x=a.clone(); x.t_(); r=x')|ip('x=a.clone(); x.addcmul_(c,c); r=x')|ip('x=a.clone(); x.index_copy_(0,torch.tensor([1]),c[:1]); r=x')|ip('x=a.clone(); x.index_add_(0,torch.tensor([1]),c[:1]); r=x')|ip('x=a.clone(); y=x[0]; y.copy_(v); r=x')|ip('x=a.clone(); x[:,0]=u; r=x')|ip('x=a.clone(); x[x>0]=0; r=x')|ip('with torch.no_grad(): r=a*2')|ip('x=torch.empty((3,4),dtype=torch.float64)\\nfor i in range(3): x[i]=a[i]\\nr=x')|ip('x=[]\\nfor row in a: x.append(row*2)\\nr=torch.stack(x)')|ip('x=torch.zeros(3,3,dtype=torch.float64); torch.mm(a,b,out=x); r=x')|ip('x=torch.zeros(3,4,dtype=torch.float64); torch.add(a,c,out=x); r=x')|ip('x=a.clone(); x.addcdiv_(c,c); r=x')|ip('x=a.clone(); torch.exp_(x); r=x')|ip('x=a.clone(); x.select(0,1).fill_(2.); r=x')|ip('x=a.clone(); x.narrow(1,0,2).mul_(2); r=x')|ip('x,y=a.unbind(0)[:2]; r=x*y')|ip('x,y,z=a; r=x*y-z')|ip('x=a.clone(); x.lerp_(c,0.5); r=x')|ip('x=torch.empty(3,4,dtype=torch.float64); x[:]=c; r=x')|ip('x=a.clone(); x.T.copy_(b); r=x')|ip('m,i=a.max(dim=1); r=m')|ip('m,_=torch.min(a,dim=1); r=m')|ip('r=max(v)')|ip('r=min(v.tolist())')|ip('r=sum(v)')|ip('import numpy as np\\nr=np.asarray(a)*2')|ip('import numpy as np\\nr=torch.as_tensor(np.array([1.,2.]))*s')|ip('import math\\nr=math.sqrt(v[0].item()**2)')|ip('r=sum(x*y for x,y in zip(v,w))')|ip('r=torch.stack([x*2 for x in a.unbind(1)],dim=1)')|ip('x=a.clone(); x.index_fill_(0,torch.tensor([1]),2.); r=x')|ip('x=a.clone(); x.swapaxes_(0,1) if False else 0; r=x')
"""
SHAPES = {"a": (3, 4), "b": (4, 3), "c": (3, 4), "v": (4,), "w": (4,), "u": (3,), "s": (), "q": (3, 3), "h": (2, 3, 4)}


def exprs(t):
    return [e.strip() for line in t.strip().splitlines() for e in line.split("|") if e.strip()]


def data():
    import random
    r = random.Random(5)
    out = {}
    for n, sh in SHAPES.items():
        k = 1
        for i in sh:
            k *= i
        out[n] = [round(r.uniform(0.2, 1.5) * r.choice((-1, 1)), 6) for _ in range(k)]
    return out


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    if hasattr(x, "tolist"):
        return flat(x.tolist())
    return [float(x)]


def shape(x):
    import numpy
    return list(x.shape) if hasattr(x, "shape") else list(numpy.shape(x))


def real():
    import itertools
    import numpy as np
    import scipy.linalg as sl
    import scipy.spatial as spd
    import scipy.spatial.distance as cd
    import scipy.special as ss
    import torch
    res = {}
    for lib, text in (("np", NUMPY), ("torch", TORCH)):
        base = {}
        for n, vals in data().items():
            x = np.array(vals).reshape(SHAPES[n])
            base[n] = x
        base["q"] = base["q"] @ base["q"].T + np.eye(3)
        base["s"] = base["s"].item() if lib == "np" else base["s"]
        for n in base:
            if lib == "torch":
                base[n] = torch.tensor(base[n], dtype=torch.float64)
        for e in exprs(text):
            g = dict(base, np=np, torch=torch, sl=sl, spd=spd, cd=cd, ss=ss, itertools_acc=itertools.accumulate)
            try:
                r = run(e, g)
                res[lib + " " + e] = [shape(r), flat(r)]
            except Exception as x:
                res[lib + " " + e] = ["error", "%s: %s" % (type(x).__name__, str(x)[:100])]
    print(json.dumps(res))


def run(e, g):
    def ip(src):
        d = dict(g)
        exec(compile(src, "ip", "exec"), d)
        return d["r"]
    g["ip"] = g.get("ip_") or ip
    return eval(e, g)


def symbolic():
    import itertools
    sys.path.insert(0, HERE)
    import ast
    from engine import explore, load, poly, smt, symdom
    import numpy
    res = {}
    for lib, text in (("np", NUMPY), ("torch", TORCH)):
        for e in exprs(text):
            def body(D, cfg):
                over = data()
                g = {}
                for n, sh in SHAPES.items():
                    if sh == ():
                        g[n] = D.give(D.num(n), "tensor" if lib == "torch" else "array")
                    else:
                        g[n] = D.give(D.arr(n, sh), "tensor" if lib == "torch" else "array")
                g["q"] = g["q"] @ g["q"].T + (D.torch.eye(3, dtype=D.torch.float64) if lib == "torch" else D.np.eye(3))
                L = D.loader
                g.update(np=D.np, torch=D.torch, sl=L.table["scipy.linalg"], spd=L.table["scipy.spatial"], cd=L.table["scipy.spatial.distance"],
                         ss=L.table["scipy.special"], itertools_acc=itertools.accumulate, __builtins__=L.builtins)

                def comp(src, mode):
                    t = load.Rewrite().visit(ast.parse(src, "m", mode))
                    ast.fix_missing_locations(t)
                    return compile(t, "m", mode)

                def ip(src):
                    d = dict(g)
                    exec(comp(src, "exec"), d)
                    return d["r"]
                g["ip"] = ip
                r = eval(comp(e, "eval"), g)
                r = r if not isinstance(r, tuple) else list(r)
                sh = list(r.shape) if hasattr(r, "shape") else list(numpy.shape(numpy.array(r, dtype=object)))
                D.outs["x"] = [sh, D.prover.vals[0].array(D.host(r) if not isinstance(r, list) else numpy.array(r, dtype=object)).reshape(-1).tolist()]
                D.ok("x", True)
            over = {}
            for n, vals in data().items():
                if SHAPES[n] == ():
                    over[n] = vals[0]
                else:
                    for i, x in zip(numpy.ndindex(*SHAPES[n]), vals):
                        over[n + "".join("_%d" % j for j in i)] = x
            try:
                r = explore.run_path(body, {"dim": 2}, {"seed": "1", "over": over}, {"stub": False})
                res[lib + " " + e] = r.dom.outs["x"] if r.status == "done" else ["error", "%s %s" % (r.status, r.error)]
            except BaseException as x:
                res[lib + " " + e] = ["error", "%s: %s" % (type(x).__name__, str(x)[:200])]
    return res


def main():
    out = subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "real"], capture_output=True, text=True)
    if out.returncode:
        print(out.stderr)
        return 1
    R, S = json.loads(out.stdout), symbolic()
    miss = diff = good = skip = 0
    for k, r in R.items():
        s = S[k]
        if r[0] == "error":
            skip += 1
            print("not valid in the library:", k, r[1])
        elif s[0] == "error":
            miss += 1
            print("NO MODEL  ", k, "--", s[1][:160])
        elif s[0] != r[0] or len(s[1]) != len(r[1]) or any(abs(x - y) > 1e-9 * (1 + abs(y)) for x, y in zip(s[1], r[1])):
            diff += 1
            print("DIFFERENT ", k, s, r)
        else:
            good += 1
    print("%d agree, %d differ, %d without a model, %d not valid" % (good, diff, miss, skip))
    return int(diff > 0)


if __name__ == "__main__":
    if len(sys.argv) > 1:
        real()
    else:
        sys.exit(main())
