// cubes: creation and description
OP(create_hyper_mat,0,0){ auto*o=&x.rcube(); char*il=x.str(ILN[x.IL]); CALL(*o=create_hyper_mat(C_,R_,B_,x.DT,il)); }
OP(create_hyper_mat_with_data,0,0){ auto*o=&x.rcube(); void*d=x.arr(R_*C_*B_,x.DT); float*w=s.p[0]%4?(float*)x.arr(B_,4,1):nullptr; char*il=x.str(ILN[x.IL]); CALL(*o=create_hyper_mat_with_data(C_,R_,B_,x.DT,il,d,w)); }
OP(hyper_mat_copy,0,0){ auto*o=&x.rcube(); auto m=x.cube(); if(s.p[0]%15==0){ m=nullptr; x.refused_ok=true; } CALL(*o=hyper_mat_copy(m)); }
OP(hyper_mat_copy_to,0,0){ auto m=x.cube(); auto d=x.mcube(C_,R_,B_,x.DT,s.p[0]%3,true); CALL(hyper_mat_copy_to(m,d)); }
OP(hyper_mat_copy_wavelength,0,0){ auto m=x.cube(); auto d=x.mcube(1+s.p[0]%4,1+s.p[1]%4,B_,DTYPES[s.p[2]%9],s.p[3]%3,false); CALL(hyper_mat_copy_wavelength(m,d)); }
OP(hyper_mat_empty,0,0){ auto m=x.cube(); auto*o=&x.rval(); CALL(*o=hyper_mat_empty(s.p[0]%8?m:nullptr)); }
OP(hyper_mat_showinfo,0,0){ auto m=x.cube(); CALL(hyper_mat_showinfo(m)); }
OP(cmpstr,0,0){ static const char*t[]={"bsq","bip","bil","bs","","wavelength"}; auto*o=&x.rval(); char*a=x.str(t[s.p[0]%6]),*b=x.str(t[s.p[1]%6]); CALL(*o=cmpstr(a,b)); }
// images: creation and description
OP(create_simple_mat,0,0){ auto*o=&x.rimg(); CALL(*o=create_simple_mat(R_,C_,x.DT,x.CH)); }
OP(simple_mat_copy,0,0){ auto*o=&x.rimg(); auto m=x.img(); CALL(*o=simple_mat_copy(m)); }
#define MT_ (s.p[0]%3?std::array<int,5>{1,2,3,4,12}[s.p[1]%5]:1)
OP(simple_mat_mean,0,0){ auto*o=&x.rval(); auto m=x.img(R_,C_,MT_,1); CALL(*o=simple_mat_mean(m)); }
OP(simple_mat_variance,0,0){ auto*o=&x.rval(); auto m=x.img(R_,C_,MT_,1); CALL(*o=simple_mat_variance(m)); }
OP(simple_mat_contrast_ratio,0,0){ auto*o=&x.rval(); auto m=x.img(R_,C_,1,s.p[0]%2?1:3); CALL(*o=simple_mat_contrast_ratio(m)); }
OP(simple_mat_grayscale_statistics,0,0){ auto m=x.img(R_,C_,1,s.p[0]%2?1:3); int*d=(int*)x.marr(256,3,true); CALL(simple_mat_grayscale_statistics(m,d)); }
OP(simple_mat_entropy,0,0){ auto*o=&x.rval(); auto m=x.img(R_,C_,1,s.p[0]%2?1:3); CALL(*o=simple_mat_entropy(m)); }
OP(create_2D_struct,0,0){ auto*o=&x.rs2d(); int w=1+s.p[0]%9,h=1+s.p[1]%9; CALL(*o=create_2D_struct(w,h)); }
OP(create_2D_struct_with_data,0,0){ auto*o=&x.rs2d(); int w=1+s.p[0]%9,h=1+s.p[1]%9; void*d=x.arr(w*h,1); CALL(*o=create_2D_struct_with_data(w,h,d)); }
// layouts
#define LAY(name,from) OP(name,0,0){ auto*o=&x.rcube(); auto m=x.cube(C_,R_,B_,x.DT,from); CALL(*o=name(m)); }
LAY(bil2bsq,1) LAY(bil2bip,1) LAY(bsq2bil,0) LAY(bsq2bip,0) LAY(bip2bsq,2) LAY(bip2bil,2)
#define CONV(name) OP(name,0,0){ auto m=x.mcube(C_,R_,B_,x.DT,x.IL,false); CALL(name(m)); }
CONV(convert2bsq) CONV(convert2bil) CONV(convert2bip)
// parts of cubes
OP(hyper_mat_get_range,0,0){ auto*o=&x.rcube(); auto m=x.cube(); int r0=s.p[0]%R_,c0=s.p[1]%C_,b0=s.p[2]%B_; int r1=r0+1+(s.p[3]%(R_-r0)),c1=c0+1+(s.p[3]/7%(C_-c0)),b1=b0+1+(s.p[3]/3%(B_-b0)); if(s.p[3]%41==0) r1=r0; if(s.p[0]%9==0){ r0=0;c0=0;r1=R_;c1=C_; } CALL(*o=hyper_mat_get_range(m,r0,c0,b0,r1,c1,b1)); }
OP(reshape_hypermat_2_simplemat,0,0){ auto*o=&x.rimg(); auto m=x.cube(); int n=R_*C_*B_,rows=R_*C_,cols=B_; switch(s.p[0]%4){ case 1: rows=R_; cols=C_*B_; break; case 2: rows=1; cols=n; break; case 3: rows=C_; cols=R_*B_; } CALL(*o=reshape_hypermat_2_simplemat(m,rows,cols)); }
OP(hyper_mat_2_simple_mat,0,0){ auto m=x.cube(C_,R_,B_,x.DT,0); auto d=x.mimg(R_,C_,x.DT,1,true); int k=1+s.p[0]%B_; CALL(hyper_mat_2_simple_mat(m,d,k)); }
OP(simple_mat_2_hyper_mat,0,0){ auto d=x.mcube(C_,R_,B_,x.DT,0,false); auto m=x.img(R_,C_,x.DT,1); int k=1+s.p[0]%B_; CALL(simple_mat_2_hyper_mat(d,m,k)); }
OP(simple_mat_transport,0,0){ auto m=x.img(); auto d=x.mimg(C_,R_,x.DT,x.CH,true); CALL(simple_mat_transport(d,m)); }
OP(simple_mat_addition_uchar,0,0){ auto a=x.img(R_,C_,1,1,0),b=x.img(R_+s.p[0]%3,C_+s.p[1]%3,1,1,1); auto d=x.mimg(R_,C_,1,1,true); CALL(simple_mat_addition_uchar(a,b,d)); }
OP(simple_mat_addition_float,0,0){ auto a=x.img(R_,C_,4,1,0),b=x.img(R_+s.p[0]%3,C_+s.p[1]%3,4,1,1); auto d=x.mimg(R_,C_,4,1,true); CALL(simple_mat_addition_float(a,b,d)); }
OP(simple_mat_log,0,0){ auto a=x.img(R_,C_,4,1); auto d=x.mimg(R_,C_,4,1,true); CALL(simple_mat_log(a,d)); }
OP(hyper_mat_splicing,0,0){ auto d=x.mcube(C_,R_,B_,x.DT,x.IL,false); auto part=x.cube(1+s.p[0]%C_,1+s.p[1]%R_,1+s.p[2]%B_,x.DT,x.IL); long n=(long)part->samples*part->lines*part->bands,t=(long)R_*C_*B_; int st=(int)(s.p[3]*37%(t-n+1)); CALL(hyper_mat_splicing(d,part,st)); }
OP(hyper_mat_transport,0,0){ auto m=x.cube(C_,R_,B_,x.DT,0); auto d=x.mcube(R_,C_,B_,x.DT,0,true); CALL(hyper_mat_transport(d,m)); }
// spectra and statistics
OP(hyper_mat_mean,0,0){ auto m=x.cube(C_,R_,B_,4,2); auto d=x.mimg(R_,C_,4,1,true); CALL(hyper_mat_mean(m,d)); }
OP(spectrum_SAM_match,0,1){ auto*o=&x.rimg(); auto m=x.cube(C_,R_,B_,4,2); float*sp=(float*)x.arr(B_,4); float t=(s.p[0]%100)/50.f; CALL(*o=spectrum_SAM_match(m,sp,t)); }
OP(spectral_angle_mapper,0,0){ auto*o=&x.rval(); float*a=(float*)x.arr(B_,4,0),*b=(float*)x.arr(B_,4,1); CALL(*o=spectral_angle_mapper(a,b,B_)); }
OP(euclidean_distance,0,0){ auto*o=&x.rval(); float*a=(float*)x.arr(B_,4,0),*b=(float*)x.arr(B_,4,1); CALL(*o=euclidean_distance(a,b,B_)); }
OP(hyper_mat_cem,0,1){ auto*o=&x.rimg(); int b=std::min(B_,6); auto m=x.cube(C_,R_,b,4,x.IL); float*sp=(float*)x.arr(b,4,1); CALL(*o=hyper_mat_cem(m,sp)); }
OP(hyper_mat_pca,OF_SLOW,2){ int b=std::min(B_,5); auto m=x.cube(C_,R_,b,4,2); auto d=x.mcube(C_,R_,b,4,2,true); int it=1+s.p[0]%4; CALL(hyper_mat_pca(m,d,it)); }
OP(HisEqualization,0,0){ auto m=x.img(R_,C_,1,1); auto d=x.mimg(R_,C_,1,1,true); CALL(HisEqualization(m,d)); }
OP(hyper_mat_linear_tension,0,0){ auto m=x.cube(C_,R_,B_,4,0); auto d=x.mcube(C_,R_,B_,1,0,true); CALL(hyper_mat_linear_tension(m,d)); }
static const int NT[]={1,2,4,32};
OP(hypercv_normalize,0,0){ int dt=s.p[1]%2?1:4; auto m=x.img(R_,C_,dt,1); auto d=x.mimg(R_,C_,dt,1,true); int t=NT[s.p[0]%4]; CALL(hypercv_normalize(m,d,1.f,200.f,t)); }
OP(hypercv_normalize_uchar,0,0){ auto m=x.img(R_,C_,1,1); auto d=x.mimg(R_,C_,1,1,true); int t=NT[s.p[0]%4]; CALL(hypercv_normalize_uchar(m,d,2.f,100.f,t)); }
OP(hypercv_normalize_float,0,0){ auto m=x.img(R_,C_,4,1); auto d=x.mimg(R_,C_,4,1,true); int t=NT[s.p[0]%4]; CALL(hypercv_normalize_float(m,d,0.f,1.f,t)); }
extern "C" float cal_edge_signal_energy(simple_mat);
OP(cal_edge_signal_energy,0,0){ auto*o=&x.rval(); auto m=x.img(R_,C_,1,1); CALL(*o=cal_edge_signal_energy(m)); }
OP(calc_hu_moment,0,0){ auto m=x.img(R_,C_,1,1); double*d=(double*)x.marr(7,5,true); CALL(calc_hu_moment(d,m)); }
OP(hypercv_match_shapes,0,0){ auto*o=&x.rval(); auto a=x.img(R_,C_,1,1,0),b=x.img(C_,R_,1,1,1); CALL(*o=hypercv_match_shapes(a,b)); }
OP(hypercv_k_means,OF_RAND|OF_SLOW,2){ auto m=x.img(R_,C_,1,x.CH); int k=1+s.p[0]%4; POINT*v=x.mvec(k); int t=s.p[1]%3; CALL(hypercv_k_means(m,v,k,t)); }
OP(get_optimal_DFT_size,0,0){ auto*o=&x.rval(); int n=1+s.p[0]*s.p[1]; CALL(*o=get_optimal_DFT_size(n)); }
OP(hypercv_dft,OF_SLOW,3){ int dt=s.p[0]%2?1:12; auto m=x.img(R_,C_,dt,1); auto a=x.mimg(R_,C_,4,1,true,1),b=x.mimg(R_,C_,4,1,true,2); CALL(hypercv_dft(m,a,b)); }
OP(hypercv_dft_uchar,OF_SLOW,3){ auto m=x.img(R_,C_,1,1); auto a=x.mimg(R_,C_,4,1,true,1),b=x.mimg(R_,C_,4,1,true,2); CALL(hypercv_dft_uchar(m,a,b)); }
OP(hypercv_dft_ushort,OF_SLOW,3){ auto m=x.img(R_,C_,12,1); auto a=x.mimg(R_,C_,4,1,true,1),b=x.mimg(R_,C_,4,1,true,2); CALL(hypercv_dft_ushort(m,a,b)); }
OP(hypercv_dft_frespectrum,OF_SLOW,3){ auto m=x.img(R_,C_,1,1); auto d=x.mimg(R_,C_,1,1,true); CALL(hypercv_dft_frespectrum(m,d)); }
OP(hypercv_idft,OF_SLOW,3){ int dt=s.p[0]%2?1:12; auto a=x.img(R_,C_,4,1,0),b=x.img(R_,C_,4,1,1); auto d=x.mimg(R_,C_,dt,1,true); CALL(hypercv_idft(a,b,d)); }
OP(hypercv_idft_uchar,OF_SLOW,3){ auto a=x.img(R_,C_,4,1,0),b=x.img(R_,C_,4,1,1); auto d=x.mimg(R_,C_,1,1,true); CALL(hypercv_idft_uchar(a,b,d)); }
OP(hypercv_idft_ushort,OF_SLOW,3){ auto a=x.img(R_,C_,4,1,0),b=x.img(R_,C_,4,1,1); auto d=x.mimg(R_,C_,12,1,true); CALL(hypercv_idft_ushort(a,b,d)); }
OP(hypercv_magnitude,0,0){ auto a=x.img(R_,C_,4,1,0),b=x.img(R_,C_,4,1,1); auto d=x.mimg(R_,C_,4,1,true); CALL(hypercv_magnitude(a,b,d)); }
// geometry
OP(simple_mat_flip_horizontal,0,0){ auto m=x.img(); auto d=x.mimg(R_,C_,x.DT,x.CH,true); CALL(simple_mat_flip_horizontal(m,d)); }
OP(simple_mat_flip_vertical,0,0){ auto m=x.img(); auto d=x.mimg(R_,C_,x.DT,x.CH,true); CALL(simple_mat_flip_vertical(m,d)); }
OP(simple_mat_flip,0,0){ auto m=x.img(); auto d=x.mimg(R_,C_,x.DT,x.CH,true); int k=s.p[0]%3-1; CALL(simple_mat_flip(m,d,k)); }
OP(hypercv_pyramid_down,0,1){ int r=std::max(2,R_),c=std::max(2,C_); auto m=x.img(r,c,1,x.CH); auto d=x.mimg((r+1)/2,(c+1)/2,1,x.CH,true); CALL(hypercv_pyramid_down(m,d)); }
OP(hypercv_pyramid_up,0,1){ int r=std::max(2,R_),c=std::max(2,C_); auto m=x.img(r,c,1,x.CH); auto d=x.mimg(2*r,2*c,1,x.CH,true); CALL(hypercv_pyramid_up(m,d)); }
OP(hyper_mat_rotate,0,1){ auto*o=&x.rcube(); auto m=x.cube(); double a=(s.p[0]%4==0)?90*(s.p[1]%4):(s.p[0]-500)*0.9; CALL(*o=hyper_mat_rotate(m,a)); }
// filters
static const int BT[]={0,1,2,3,4};
OP(hypercv_filter2D,0,1){ int kr=1+2*(s.p[0]%3),kc=1+2*(s.p[1]%3); auto m=x.img(R_,C_,1,x.CH); auto d=x.mimg(R_,C_,4,x.CH,true); float*k=(float*)x.arr(kr*kc,4,3,1); int b=BT[s.p[2]%5]; CALL(hypercv_filter2D(m,d,k,kr,kc,b)); }
OP(gaussian_kernel,0,0){ auto*o=&x.rimg(); int n=1+s.p[0]%15; double sg=(s.p[1]%50)/10.0-1; int t=s.p[2]%2?4:5; CALL(*o=gaussian_kernel(n,sg,t)); }
OP(hypercv_gaussian_blur,0,1){ int kw=1+2*(s.p[0]%3),kh=1+2*(s.p[1]%3); auto m=x.img(R_,C_,1,x.CH); auto d=x.mimg(R_,C_,1,x.CH,true); int b=BT[s.p[2]%5]; double sg=(s.p[3]%40)/10.0; CALL(hypercv_gaussian_blur(m,d,kw,kh,sg,s.p[3]%3?sg:0,b)); }
OP(hypercv_gaussian_blur_with_kernel,0,1){ int kw=1+2*(s.p[0]%3),kh=1+2*(s.p[1]%3); auto m=x.img(R_,C_,1,x.CH); auto d=x.mimg(R_,C_,1,x.CH,true); int b=BT[s.p[2]%5]; auto kx=x.img(1,kw,4,1,5,1),ky=x.img(1,kh,4,1,6,1); CALL(hypercv_gaussian_blur_with_kernel(m,d,kx,ky,b)); }
OP(hypercv_medianblur,0,1){ auto m=x.img(R_,C_,1,1); auto d=x.mimg(R_,C_,1,1,true); int n=1+2*(s.p[0]%4); CALL(hypercv_medianblur(m,d,n)); }
OP(hypercv_meanblur,0,1){ auto m=x.img(R_,C_,1,1); auto d=x.mimg(R_,C_,1,1,true); int n=1+s.p[0]%6; CALL(hypercv_meanblur(m,d,n)); }
OP(hypercv_integral,0,0){ auto m=x.img(R_,C_,1,1); auto d=x.mimg(R_,C_,3,1,true); CALL(hypercv_integral(m,d)); }
OP(hypercv_copy_make_border,0,0){ auto*o=&x.rimg(); auto m=x.img(); int t=s.p[0]%4,b=s.p[1]%4,l=s.p[2]%4,q=s.p[3]%4; int bt=BT[s.p[0]/4%5]; CALL(*o=hypercv_copy_make_border(m,t,b,l,q,bt,(unsigned char)s.p[3])); }
OP(hypercv_sobel,0,1){ auto m=x.img(R_,C_,1,1); auto d=x.mimg(R_,C_,1,1,true); int b=BT[s.p[2]%5]; CALL(hypercv_sobel(m,d,s.p[0]%300,b)); }
OP(hypercv_laplacian,0,1){ auto m=x.img(R_,C_,1,1); auto d=x.mimg(R_,C_,1,1,true); int b=BT[s.p[2]%5]; int k=1+2*(s.p[0]%3); CALL(hypercv_laplacian(m,d,k,b)); }
// thresholds and morphology
OP(otsuThreshold,0,0){ auto*o=&x.rval(); auto m=x.img(R_,C_,1,x.CH); CALL(*o=otsuThreshold(m)); }
static const int TT[]={0,1,2,3,4,7,8,16};
OP(hypercv_threshold,0,0){ auto m=x.img(R_,C_,1,1); int t=TT[s.p[0]%8]; auto d=x.mimg(R_,C_,1,1,t<=4||t==8); CALL(hypercv_threshold(m,d,s.p[1]%256,s.p[2]%256,t)); }
#define THR(name,full) OP(name,0,0){ auto m=x.img(R_,C_,1,1); auto d=x.mimg(R_,C_,1,1,full); CALL(name(m,d,s.p[1]%256,s.p[2]%256)); }
THR(hypercv_threshold_binary,true) THR(hypercv_threshold_binary_inv,true) THR(hypercv_threshold_trunc,true) THR(hypercv_threshold_tozero,true) THR(hypercv_threshold_tozero_inv,true) THR(hypercv_threshold_mask,false) THR(hypercv_threshold_triangle,false)
OP(hypercv_threshold_otsu,0,0){ auto m=x.img(R_,C_,1,1); auto d=x.mimg(R_,C_,1,1,true); CALL(hypercv_threshold_otsu(m,d)); }
#define KW (1+2*(s.p[0]%3))
#define KH (1+2*(s.p[1]%3))
OP(hypercv_corrosion,0,1){ auto m=x.img(R_,C_,1,1); auto k=x.kernel(KW,KH,s.p[2]); auto d=x.mimg(R_,C_,1,1,true); CALL(hypercv_corrosion(m,d,k)); }
OP(hypercv_expend,0,1){ auto m=x.img(R_,C_,1,1); auto k=x.kernel(KW,KH,s.p[2]); auto d=x.mimg(R_,C_,1,1,true); CALL(hypercv_expend(m,d,k)); }
OP(hypercv_open,0,1){ auto m=x.img(R_,C_,1,1); auto k=x.kernel(KW,KH,s.p[2]); auto d=x.mimg(R_,C_,1,1,true); CALL(hypercv_open(m,d,k,1+s.p[3]%3)); }
OP(hypercv_close,0,1){ auto m=x.img(R_,C_,1,1); auto k=x.kernel(KW,KH,s.p[2]); auto d=x.mimg(R_,C_,1,1,true); CALL(hypercv_close(m,d,k,1+s.p[3]%3)); }
// colours
OP(sm_binary2rgb,0,0){ auto*o=&x.rimg(); auto m=x.img(R_,C_,1,1); CALL(*o=sm_binary2rgb(m)); }
OP(sm_gray2rgb,0,0){ auto*o=&x.rimg(); auto m=x.img(R_,C_,1,1); CALL(*o=sm_gray2rgb(m)); }
OP(sm_rgb2gray,0,0){ auto*o=&x.rimg(); auto m=x.img(R_,C_,1,3); CALL(*o=sm_rgb2gray(m,s.p[0]%3)); }
OP(sm_bgr2rgb,0,0){ auto m=x.img(R_,C_,1,3); auto d=x.mimg(R_,C_,1,3,true); CALL(sm_bgr2rgb(m,d)); }
// element types
#define TYP(name,from) OP(name,0,0){ auto*o=&x.rcube(); auto m=x.cube(C_,R_,B_,from,x.IL); CALL(*o=name(m)); }
TYP(hyper_mat_uchar2short,1) TYP(hyper_mat_uchar2int,1) TYP(hyper_mat_uchar2float,1) TYP(hyper_mat_uchar2ushort,1) TYP(hyper_mat_float2char,4) TYP(hyper_mat_float2int,4) TYP(hyper_mat_float2short,4) TYP(hyper_mat_float2ushort,4) TYP(hyper_mat_float2uchar,4) TYP(hyper_mat_ushort2float,12)
extern "C" hyper_mat hyper_mat_float2uint(hyper_mat); TYP(hyper_mat_float2uint,4)
OP(simple_mat_float2uchar,0,0){ auto*o=&x.rimg(); auto m=x.img(R_,C_,4,x.CH); CALL(*o=simple_mat_float2uchar(m)); }
OP(hypercv_atof,0,0){ auto*o=&x.rval(); static const char*t[]={"1.5","-2.25","0.001","123456","7","-0.5"," 3.5","12.75abc"}; char*a=x.str(t[s.p[0]%8]); CALL(*o=hypercv_atof(a)); }
// numbers
#define MEAN(t,T,dt) OP(mean_##t,0,0){ auto*o=&x.rval(); int n=1+s.p[0]%70; T*a=(T*)x.arr(n,dt); CALL(*o=mean_##t(a,n)); }
MEAN(double,double,5) MEAN(uint,unsigned,13) MEAN(short,short,2) MEAN(ushort,unsigned short,12) MEAN(float,float,4) MEAN(uchar,unsigned char,1) MEAN(char,char,1) MEAN(int,int,3)
OP(sort_array_down_float,0,0){ int n=1+s.p[0]%70; float*a=(float*)x.marr(n,4,false); CALL(sort_array_down_float(a,n)); }
extern "C" long int hypercv_factorial(int n);
OP(hypercv_factorial,0,0){ auto*o=&x.rval(); int n=s.p[0]%21; CALL(*o=hypercv_factorial(n)); }
#define MUL(t,T,dt) OP(MulMatrix_##t,0,0){ int m=1+s.p[0]%6,k=1+s.p[1]%6,n=1+s.p[2]%6; T*a=(T*)x.arr(m*k,dt,0,1),*b=(T*)x.arr(k*n,dt,1,1),*z=(T*)x.marr(m*n,dt,true,2,1); CALL(MulMatrix_##t(a,b,z,m,k,n)); }
MUL(char,char,1) MUL(uchar,unsigned char,1) MUL(short,short,2) MUL(ushort,unsigned short,12) MUL(int,int,3) MUL(uint,unsigned,13) MUL(float,float,4) MUL(double,double,5)
#define COR(t,T,dt) OP(correlation_matrix_##t,0,0){ int l=1+s.p[0]%6,n=1+s.p[1]%6,m=1+s.p[2]%6; int q=std::max(l,std::max(n,m)); T*a=(T*)x.arr(q*q,dt,0,1),*b=(T*)x.arr(q*q,dt,1,1),*z=(T*)x.marr(l*m,dt,true,2,1); CALL(correlation_matrix_##t(z,a,b,l,n,m)); }
COR(char,char,1) COR(uchar,unsigned char,1) COR(short,short,2) COR(ushort,unsigned short,12) COR(int,int,3) COR(uint,unsigned,13) COR(float,float,4)
#define TRA(t,T,dt) OP(TransMatrix_##t,0,0){ int m=1+s.p[0]%12,n=1+s.p[1]%12; T*a=(T*)x.arr(m*n,dt),*z=(T*)x.marr(m*n,dt,true); CALL(TransMatrix_##t(a,z,m,n)); }
TRA(double,double,5) TRA(short,short,2) TRA(char,char,1) TRA(ushort,unsigned short,12) TRA(uchar,unsigned char,1) TRA(int,int,3) TRA(float,float,4) TRA(uint,unsigned,13)
OP(matrix_norm_float,0,0){ auto*o=&x.rval(); int n=1+s.p[0]%30; float*a=(float*)x.arr(n,4); CALL(*o=matrix_norm_float(a,n)); }
OP(matrix_QR_float,0,0){ int m=1+s.p[0]%6; float*a=(float*)x.arr(m*m,4,0,s.vm),*q=(float*)x.marr(m*m,4,true,1),*r=(float*)x.marr(m*m,4,true,2); CALL(matrix_QR_float(a,q,r,m); for(int i=0;i<m;i++) for(int j=0;j<i;j++) r[i*m+j]=0); }
OP(cal_eigen_vector_float,0,0){ int m=1+s.p[0]%5; float*a=(float*)x.arr(m*m,4,0,s.vm),*q=(float*)x.marr(m*m,4,true,1),*r=(float*)x.arr(m,4,2); CALL(cal_eigen_vector_float(a,q,r,m,m)); }
OP(set_identity_matrix_float,0,0){ int m=1+s.p[0]%9; float*a=(float*)x.marr(m*m,4,true); CALL(set_identity_matrix_float(a,m)); }
OP(swap_rows_float,0,0){ int m=2+s.p[0]%7,n=1+s.p[1]%7; float*a=(float*)x.marr(m*n,4,false); int q=s.p[2]%m; CALL(swap_rows_float(a,m,n,q,(q+1+s.p[3]%(m-1))%m)); }
OP(invert_matrix_float,0,0){ int m=1+s.p[0]%5; float*a=(float*)x.marr(m*m,4,false,1),*q=(float*)x.marr(m*m,4,true,2); for(int i=0;i<m;i++) a[i*m+i]=50000.f+i; CALL(invert_matrix_float(q,a,m)); }
// wavelet filters and spectra as arrays
struct SimWave { int len; double*f[4]; }; extern "C" SimWave* set_wavelet_base(int); extern "C" void wavelet_base_free(SimWave*); extern "C" float sp_average(float*,int); extern "C" float sp_variance(float*,int); extern "C" float sp_standard_deviation(float*,int);
OP(wavelet_base,0,0){ int t=1+s.p[0]%2; double*z=(double*)x.marr(64,5,true); auto*o=&x.rval(); CALL(SimWave*w=set_wavelet_base(t); *o=w->len; memset(z,0,64*8); for(int k=0;k<4;k++) for(int i=0;i<w->len&&i<16;i++) z[k*16+i]=w->f[k][i]; wavelet_base_free(w)); }
OP(sp_average,0,0){ auto*o=&x.rval(); int n=1+s.p[0]%70; float*a=(float*)x.arr(n,4); CALL(*o=sp_average(a,n)); }
OP(sp_variance,0,0){ auto*o=&x.rval(); int n=1+s.p[0]%70; float*a=(float*)x.arr(n,4); CALL(*o=sp_variance(a,n)); }
OP(sp_standard_deviation,0,0){ auto*o=&x.rval(); int n=1+s.p[0]%70; float*a=(float*)x.arr(n,4); CALL(*o=sp_standard_deviation(a,n)); }
// radiometry
OP(relative_radiometric_correction,0,0){ auto*o=&x.rcube(); auto m=x.cube(C_,R_,B_,12,2); float*k=(float*)x.arr(B_*std::max(C_,B_)+C_,4,1,1); CALL(*o=relative_radiometric_correction(m,k)); }
OP(absolute_radiometric_correction,0,0){ auto*o=&x.rcube(); auto m=x.cube(C_,R_,B_,4,2); float*k=(float*)x.arr(B_,4,1,1); CALL(*o=absolute_radiometric_correction(m,k)); }
// drawing
OP(draw_POINT,0,0){ auto m=x.img(R_,C_,1,x.CH); auto d=x.mimg(R_,C_,1,x.CH,true); int n=1+s.p[0]%4; std::vector<POINT> v(n); Rng q(s.seed); for(auto&k:v){ k.x=(int)q.below(C_); k.y=(int)q.below(R_); } POINT*p=x.arr(v); RGB_data col={(unsigned char)s.p[1],(unsigned char)s.p[2],(unsigned char)s.p[3]}; int sz=1+s.p[3]%3; CALL(draw_POINT(m,d,p,n,col,sz)); }
OP(draw_line,0,0){ auto m=x.img(R_,C_,1,x.CH); auto d=x.mimg(R_,C_,1,x.CH,true); POINT a={s.p[0]%C_,s.p[1]%R_},b={s.p[2]%C_,s.p[3]%R_}; RGB_data col={(unsigned char)s.p[1],(unsigned char)s.p[2],(unsigned char)s.p[3]}; int th=1+s.p[0]/3%3; CALL(draw_line(m,d,a,b,col,th)); }
// files
static std::string damage(const std::string&t,int how,int at){ if(how%4==1){ std::string x=t; x.resize(t.size()*(at%100)/100); return x; } if(how%4==2){ std::string x=t; if(!x.empty()) x[at%x.size()]^=(char)(1+at%255); return x; } return t; }
static Cube disk_cube(Ctx&x){ Cube c=gen_cube(x.C,x.R,x.B,x.DT,x.IL,x.s.vm,1,x.key(800)); return c; }
static void put_files(Ctx&x,const Cube&c0,const OpSpec&s){ Rng q(s.seed); Cube c=c0; int h=s.p[0]%8; u64 k=mix64(s.seed^0x4ead); int st=(int)(k%4); long off=st==1?(long)((k>>8)%300):0; std::string t=st==1?hdr_foreign(c,off,(int)((k>>20)%3),q):hdr_text(c,s.p[2]&0x7f,q); if(st==2&&c.hasw){ t+="\nwavelength = {"; for(int i=0;i<c.b;i++) t+=std::to_string(i*3+1)+(i+1<c.b?",":""); t+="}\n"; } std::string d=std::string((size_t)off,'x')+c.d;
  if(h!=4) x.file("img",h==1?damage(d,1,s.p[1]):d); if(h!=5) x.file("img.hdr",damage(t,h==2?1:h==3?2:0,s.p[1])); }
OP(hmread_with_hdr,OF_DISK,0){ auto*o=&x.rcube(); put_files(x,disk_cube(x),s); char*a=x.str(x.path("img")),*b=x.str(x.path("img.hdr")); CALL(*o=hmread_with_hdr(a,b)); }
OP(hmread_with_size,OF_DISK,0){ auto*o=&x.rcube(); put_files(x,disk_cube(x),s); char*a=x.str(x.path("img")),*il=x.str(ILN[x.IL]); CALL(*o=hmread_with_size(a,C_,R_,B_,x.DT,il)); }
OP(hmsave,OF_DISK,0){ auto m=x.cube(); char*a=x.str(x.path("out")); if(s.p[0]%3==0) x.file("out","old"); CALL(hmsave(a,m)); }
OP(writehdr,OF_DISK,0){ float*w=s.p[0]%4?(float*)x.arr(B_,4,1):nullptr; char*a=x.str(x.path("out")),*il=x.str(ILN[x.IL]); CALL(writehdr(a,C_,R_,B_,x.DT,il,w)); }
OP(smread,OF_DISK,0){ auto*o=&x.rimg(); Img m=gen_img(R_,C_,x.DT,x.CH,s.vm,x.key(801)); if(s.p[0]%6!=4) x.file("img",damage(m.d,s.p[0]%6==1,s.p[1])); char*a=x.str(x.path("img")); CALL(*o=smread(a,R_,C_,x.DT,x.CH)); }
OP(smread_bmp,OF_DISK,0){ auto*o=&x.rimg(); Img m=gen_img(R_,C_,1,3,V_RANDOM,x.key(802)); Rng q(s.seed); if(s.p[0]%8!=4) x.file("img",damage(bmp_encode(m,s.p[2]%4,q),s.p[0]%8==1?1:s.p[0]%8==2?2:0,s.p[0]%8==2?s.p[1]%54:s.p[1])); char*a=x.str(x.path("img")); CALL(*o=smread_bmp(a)); }
OP(smwrite_bmp,OF_DISK,0){ auto m=x.img(R_,C_,1,x.CH); char*a=x.str(x.path("out")); CALL(smwrite_bmp(a,m)); }
OP(read_spectrum_file,OF_DISK,0){ int n=1+s.p[0]%40; auto*o=&x.rptr(4*n); std::string t; Rng q(s.seed); int m=s.p[1]%6==1?n-1:n; for(int i=0;i<m;i++){ char b[40]; snprintf(b,40,s.p[2]%2?"%.3f\n":"%g ",(double)q.range(-9999,9999)/8); t+=b; } if(s.p[1]%6==2) t="abc "+t; if(s.p[1]%6!=3) x.file("sp",t); char*a=x.str(x.path("sp")); CALL(*o=read_spectrum_file(a,n)); }
// the C++ cube
OP(hy_construct5,OF_CXX,0){ void*q=x.rhy(); CALL(hy_construct5(q,C_,R_,B_,x.DT,hy_fmt(x.IL))); }
OP(hy_create7,OF_CXX,0){ void*q=x.rhy(); void*d=x.arr(R_*C_*B_,x.DT); float*w=(float*)x.arr(B_,4,1); CALL(hy_construct(q); hy_create5(q,C_,R_,B_,x.DT,hy_fmt(x.IL)); hy_copydata(q,d,(long)R_*C_*B_*dt_size(x.DT)); hy_copywl(q,w,B_)); }
OP(hy_create_again,OF_CXX,0){ void*q=x.rhy(); void*d=x.arr(R_*C_*B_,x.DT); float*w=(float*)x.arr(B_,4,1); int C2=1+s.p[0]%C_,R2=1+s.p[1]%R_,B2=1+s.p[2]%B_,same=s.p[3]%3==0; if(same) C2=B_,R2=C_,B2=R_; int dt=same?x.DT:DTYPES[s.p[3]/3%9],how=s.p[3]/21%2; long n=(long)R_*C_*B_*dt_size(x.DT); CALL(hy_construct5(q,C_,R_,B_,x.DT,hy_fmt(x.IL)); hy_copydata(q,d,n); hy_copywl(q,w,B_); if(how) hy_release(q); hy_create5(q,C2,R2,B2,dt,hy_fmt((x.IL+1)%3))); }
OP(hy_open_again,OF_CXX|OF_DISK,0){ put_files(x,disk_cube(x),s); char*a=x.str(x.path("img")),*b=x.str(x.path("img.hdr")); void*q=x.rhy(); void*d=x.arr(R_*C_*B_,x.DT); long n=(long)R_*C_*B_*dt_size(x.DT); CALL(hy_construct5(q,C_,R_,B_,x.DT,hy_fmt(x.IL)); hy_copydata(q,d,n); hy_open(q,a,b)); }
OP(hy_copy,OF_CXX,0){ void*h=x.hy(C_,R_,B_,x.DT,x.IL); void*q=x.rhy(); CALL(hy_copy(h,q)); }
OP(hy_range,OF_CXX,0){ void*h=x.hy(C_,R_,B_,x.DT,x.IL); void*q=x.rhy(); int r0=s.p[0]%R_,c0=s.p[1]%C_,b0=s.p[2]%B_; int r1=r0+1+(s.p[3]%(R_-r0)),c1=c0+1+(s.p[3]/7%(C_-c0)),b1=b0+1+(s.p[3]/3%(B_-b0)); if(s.p[3]%41==0) r1=r0; CALL(hy_range(h,q,r0,c0,b0,r1,c1,b1)); }
OP(hy_convert,OF_CXX,0){ void*h=x.mhy(C_,R_,B_,x.DT,x.IL); int f=s.p[0]%3; CALL(hy_convert(h,hy_fmt(f))); }
OP(hy_conv,OF_CXX,0){ static const int from[]={1,1,2,2,0,0}; int k=s.p[0]%6; void*h=x.hy(C_,R_,B_,x.DT,from[k]); void*q=x.rhy(); CALL(hy_conv(k,h,q)); }
OP(hy_empty,OF_CXX,0){ void*h=x.hy(C_,R_,B_,x.DT,x.IL); auto*o=&x.rval(); CALL(*o=hy_empty(h)); }
OP(hy_save,OF_CXX|OF_DISK,0){ void*h=x.hy(C_,R_,B_,x.DT,x.IL); char*a=x.str(x.path("out")); if(s.p[0]%3==0) x.file("out","old"); CALL(hy_save(h,a)); }
OP(hy_open,OF_CXX|OF_DISK,0){ put_files(x,disk_cube(x),s); char*a=x.str(x.path("img")),*b=x.str(x.path("img.hdr")); void*q=x.rhy(); CALL(hy_construct(q); hy_open(q,a,b)); }
OP(hy_open_size,OF_CXX|OF_DISK,0){ put_files(x,disk_cube(x),s); char*a=x.str(x.path("img")); void*q=x.rhy(); CALL(hy_construct(q); hy_open_size(q,a,C_,R_,B_,x.DT,hy_fmt(x.IL))); }
OP(hy_hmread,OF_CXX|OF_DISK,0){ put_files(x,disk_cube(x),s); char*a=x.str(x.path("img")),*b=x.str(x.path("img.hdr")); void*q=x.rhy(); CALL(hy_hmread(q,a,b)); }
OP(hy_hmread_size,OF_CXX|OF_DISK,0){ put_files(x,disk_cube(x),s); char*a=x.str(x.path("img")); void*q=x.rhy(); CALL(hy_hmread_size(q,a,C_,R_,B_,x.DT,hy_fmt(x.IL))); }
// orbits
OP(hypercv_create_orbit,0,0){ void**o=&x.rptr(0); Rng q(s.seed); auto u=[&](double a,double b){ return (long double)(a+(b-a)*(double)(q.next()>>11)/9007199254740992.0); }; double*v[32]; for(auto&e:v) e=&x.rval();
  std::array<long double,17> a={u(6.6e6,4.3e7),u(0,0.7),u(0,6.2),u(0,6.2),u(0,6.2),u(0,3.1),u(-1e-9,1e-9),u(-1e-8,1e-8),u(0,604800),0,u(-1e-5,1e-5),u(-1e-5,1e-5),u(-300,300),u(-300,300),u(-1e-7,1e-7),u(-1e-7,1e-7),u(-1e-8,0)}; a[9]=a[8]+u(-7200,7200); std::array<double*,32> w; std::copy(v,v+32,w.begin());
  CALL(sat_orbit b=hypercv_create_orbit(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15],a[16]); *o=b; if(!b) return; const long double*f=(const long double*)b; for(size_t i=0;i<sizeof(SATELLITE_ORBIT)/sizeof(long double)&&i<32;i++) *w[i]=(double)f[i]); }
OP(get_satellite_position_ecef,0,0){ Rng q(s.seed); std::vector<long double> f(sizeof(SATELLITE_ORBIT)/sizeof(long double)); for(auto&e:f) e=(long double)((double)q.range(-4000000,4000000)/1024); auto*b=(SATELLITE_ORBIT*)x.arr(f); double*o[3]={&x.rval(),&x.rval(),&x.rval()}; double*p0=o[0],*p1=o[1],*p2=o[2]; CALL(ECEF e=get_satellite_position_ecef(b); *p0=e.ecefx; *p1=e.ecefy; *p2=e.ecefz); }
// the dynamic array
OP(vector_fill,OF_CXX,0){ int t=s.p[0]%7; int n=1+s.p[1]%40,drop=s.p[2]%3?-1:s.p[3]%n; int es=(int)vg_esize(t); u8*in=(u8*)x.arr(n*es,1),*out=(u8*)x.marr((n-(drop>=0))*es+1,1,false); auto*c=&x.rval(); CALL(void*v=nullptr; for(int i=0;i<n;i++) vg_push(t,&v,in+(size_t)i*es); if(drop>=0) vg_erase(t,&v,drop); *c=(double)vg_size(t,&v); for(size_t i=0;i<vg_size(t,&v);i++) vg_get(t,&v,i,out+i*es); vg_free(t,&v)); }
